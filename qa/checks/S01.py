"""S01: following includes ends, and unreadable files are skipped.

Scope and Lookup are interpreted on abstract documents: every document has a known url and
a known row of nodes (of known type, with unknown contents), connected by include commands in
every constellation that matters: missing, unreadable, empty, nested, circular, unfinished,
found relative to the including document, to the first document or along the search path.
The factory that loads a document, the transform of a document, and the functions that handle
urls are given by their meaning; everything else is the program's own.
"""
from itertools import product
from urllib.parse import urljoin, urlparse

from ..lib import *
from ..shape import World

TECHNIQUE = ('Abstract interpretation of Scope and Lookup over document graphs of known shape (constant urls, abstract nodes); '
             'the nodes visited, in order and with their scope, are compared with the meaning of the include commands; '
             'exceptions that escape are collected from the control flow.')
NOTE = ('A document is identified by its url; a factory that returns documents without url must see to termination itself. '
        'The include path is inherited by sharing the list (as documented: the scope inherits it).')

FACTORY = param('factory')
ERRORS = ('OSError', 'FileNotFoundError', 'PermissionError', 'IsADirectoryError', 'ValueError', 'UnicodeDecodeError')


def check(c):
    m = c.model
    c.guard('nested', 'Scope', lambda: nested(c, m))
    c.guard('search', 'Scope.urls', lambda: search(c, m))
    c.guard('once', 'Scope.include_scope', lambda: once(c, m))
    c.guard('absent', 'Scope.get_document', lambda: absent(c, m))
    c.guard('follow', 'Lookup.preceding_nodes', lambda: follow(c, m))
    c.guard('value', 'Reference.get_value_with_scope', lambda: values(c, m))
    c.floor('nested', 6)
    c.floor('search', 12)
    c.floor('once', 12)
    c.floor('absent', 6)
    c.floor('follow', 12)
    c.floor('value', 4)


# ------------------------------------------------------------------- the world

class Files:
    """A file system of abstract documents, with an interpreter that knows it."""

    def __init__(self, m, files=(), missing=None, unfinished=(), empty=()):
        """files: {path: DOM or None}"""
        self.m = m
        self.docs = {}
        self.doms = {}
        self.unfinished = set(unfinished)
        self.error = missing
        self.waits = []
        self.loaded = []
        self.empty = set(empty)
        self.w = World(m, on_call=self.on_call)
        self.w.facts.append((truth(FACTORY), True))
        self.w.facts.append((mk('cmp', 'is', FACTORY, NONE), False))
        for path in files:
            self.add(path)

    def add(self, path, url=None):
        d = param('document ' + path)
        self.docs[path] = d
        self.w.heap[d, 'url'] = const(path) if url is None else url
        self.w.facts.append((mk('cmp', 'is', d, NONE), False))
        self.w.facts.append((truth(d), path not in self.empty))
        return d

    def scope(self, path, parent=NONE, node=NONE):
        return self.w.new(self.m.cls('dom.scope.Scope'), self.docs[path], parent, FACTORY, node)

    def on_call(self, I, st, fn, args, kws, nd):
        if fn.op == 'ext':
            name = fn.args[0].rpartition('.')[2]
            if name == 'urljoin' and all(is_const(a) for a in args) and len(args) == 2:
                return const(urljoin(args[0].args[0], args[1].args[0]))
            if name in ('urlparse', 'urlsplit') and is_const(args[0]):
                t = mk('call', fn, tuple(args), (), 0)
                st.heap[t, 'path'] = const(urlparse(args[0].args[0]).path)
                return t
        if fn is FACTORY:
            self.loaded.append(args[0])
            if is_const(args[0]):
                d = self.docs.get(args[0].args[0])
                return NONE if d is None else d
            return mk('call', fn, tuple(args), (), 0)
        if fn.op == 'attr' and fn.args[1] == 'get_transform':
            d = fn.args[0]
            wait = args[0] if args else dict(kws).get('wait')
            self.waits.append((d, wait))
            for path, x in self.docs.items():
                if x is d:
                    return NONE if path in self.unfinished else self.doms.get(path, NONE)
        return None


def url_of(fs, heap, doc):
    for path, d in fs.docs.items():
        if d is doc:
            return path


def document(fs, w, scope, heap=None):
    """The path of the document of a scope term."""
    w2 = w.copy()
    if heap is not None:
        w2.heap = dict(heap)
    w2.types[scope] = w.m.cls('dom.scope.Scope')
    r = w2.method(scope, 'document')
    return url_of(fs, w2.heap, r.value)


# ------------------------------------------------------------------- the scope

def nested(c, m):
    """A child scope has the settings of its parent."""
    cls = m.cls('dom.scope.Scope')
    where = cls.lookup('include_scope')[2].where
    for depth in (1, 2):
        fs = Files(m, ['/p/{}.ly'.format(x) for x in 'abcd'])
        s = fs.scope('/p/a.ly')
        if depth == 2:
            s = fs.scope('/p/b.ly', s, param('node of b'))
        fs.w.set(s, 'include_path', mk('tuple', const('/q')))
        fs.w.set(s, 'relative_include', param('relative'))
        fs.w.facts.append((truth(param('relative')), True))
        node = param('node')
        r = fs.w.method(s, 'include_scope', (const('d.ly'), node))
        v = r.value
        label = 'in the {} document'.format(('first', 'included')[depth - 1])
        if v is None or v.op != 'new':
            c.unknown('nested', label, 'result is {}'.format(show(v)))
            continue
        c.ob('nested', label + ': class', v.args[0].args[0] is cls, 'is a {}'.format(show(v)), where)
        h = r.state.heap
        want = {'parent': s, 'node': node, 'factory': FACTORY, 'include_path': mk('tuple', const('/q')), 'relative_include': param('relative')}
        for name, t in want.items():
            got = h.get((v, name))
            if got is None:
                c.unknown('nested', '{}: {}'.format(label, name), 'no such attribute')
                continue
            if got.op == 'ite' and r.state.query(got.args[0]) is not None:
                got = got.args[1] if r.state.query(got.args[0]) else got.args[2]
            same = got is t or (name == 'include_path' and [x[1] for x in contents(got, h)] == [const('/q')])
            c.ob('nested', '{}: {}'.format(label, name), same, '{} is {}, not {}'.format(name, show(got), show(t)), where)
        c.ob('nested', label + ': document', document(fs, fs.w, v, h) == '/p/d.ly', 'has another document', where)
    fs = Files(m, ['/p/a.ly', '/p/b.ly', '/p/c.ly'])
    chain = [fs.scope('/p/a.ly')]
    chain.append(fs.scope('/p/b.ly', chain[0], param('node')))
    chain.append(fs.scope('/p/c.ly', chain[1], param('node')))
    for i, s in enumerate(chain):
        r = fs.w.run(cls.lookup('root')[2], s)
        c.ob('nested', 'root of scope {}'.format(i), r.value is chain[0], 'is {}'.format(show(r.value)), where)
        r = fs.w.run(cls.lookup('ancestors')[2], s)
        got = [e.args[0] for e in r.yields] or [x[1] for x in (contents(r.value, r.state.heap) if r.value is not None and r.value is not NONE else ())]
        c.ob('nested', 'ancestors of scope {}'.format(i), got == chain[:i][::-1], 'are {}'.format(', '.join(show(x) for x in got)), where)


def search(c, m):
    """Relative to the including document first, then the first document, then the path."""
    cls = m.cls('dom.scope.Scope')
    f = cls.lookup('urls')[2]
    for relative, path, depth, name in product((True, False), ((), ('/q', '/r/')), (1, 2, 3), ('x.ly', 'sub/x.ly', '../x.ly')):
        fs = Files(m, ['/a/main.ly', '/b/mid.ly', '/c/leaf.ly'])
        s = NONE
        chain = []
        for p in list(fs.docs)[:depth]:
            s = fs.scope(p, s, NONE if s is NONE else param('node in ' + p))
            chain.append(p)
        fs.w.set(s, 'relative_include', const(relative))
        fs.w.set(s, 'include_path', mk('tuple', *(const(x) for x in path)))
        want = []
        for base in ([chain[-1]] if relative else []) + [chain[0]] + [x.rstrip('/') + '/' for x in path]:
            u = urljoin(base, name)
            if u not in want:
                want.append(u)
        r = fs.w.run(f, s, (const(name),))
        label = '{} in {}{}{}'.format(name, ' < '.join(chain), ', relative' if relative else '', ', path ' + ' '.join(path) if path else '')
        got = strings(r)
        if got is None:
            c.unknown('search', label, 'is {}'.format(show(r.value)))
            continue
        c.ob('search', label, got == want, 'searches {} instead of {}'.format(', '.join(got) or 'nothing', ', '.join(want) or 'nothing'), f.where)
        c.unit('chain')


def strings(r):
    """The constant strings of a sequence that is the result."""
    if r.value is None:
        return None
    if r.yields:
        seq = [e.args[0] for e in r.yields]
    else:
        z = contents(r.value, r.state.heap)
        if any(x[0] != 'one' or x[2] for x in z):
            return None
        seq = [x[1] for x in z]
    if not all(is_const(x) for x in seq):
        return None
    return [x.args[0] for x in seq]


def once(c, m):
    """A document is never included in itself, whatever the url looks like."""
    cls = m.cls('dom.scope.Scope')
    f = cls.lookup('include_scope')[2]
    # different spellings of a file name that lead to the same document
    spellings = ('{}', '{}#1', '{}?x', './{}', 'file://{dir}/{}')
    for depth in (1, 2, 3):
        for i in range(depth):
            for sp in spellings:
                fs = Files(m, ['/a/main.ly', '/a/mid.ly', '/a/leaf.ly'])
                chain = list(fs.docs)[:depth]
                s = NONE
                for p in chain:
                    s = fs.scope(p, s, NONE if s is NONE else param('node in ' + p))
                name = sp.format(chain[i][3:], dir='/a')
                r = fs.w.run(f, s, (const(name), param('node')))
                label = '{} in {}'.format(name, ' < '.join(chain))
                if r.value is None or r.value.op not in ('const', 'new'):
                    c.unknown('once', label, 'result is {}'.format(show(r.value)))
                    continue
                c.ob('once', label, r.value is NONE, 'the document is included in itself', f.where)
    # others are found: first the nearest, an empty document is a document too
    for have, empty, want in ((('/b/x.ly', '/a/x.ly'), (), '/b/x.ly'), (('/a/x.ly',), (), '/a/x.ly'), (('/q/x.ly',), (), '/q/x.ly'),
                              (('/q/x.ly', '/r/x.ly'), (), '/q/x.ly'), ((), (), None), (('/b/x.ly', '/a/x.ly'), ('/b/x.ly',), '/b/x.ly')):
        fs = Files(m, ['/a/main.ly', '/b/mid.ly'] + list(have), empty=empty)
        s = fs.scope('/a/main.ly')
        s = fs.scope('/b/mid.ly', s, param('node'))
        fs.w.set(s, 'include_path', mk('tuple', const('/q'), const('/r')))
        r = fs.w.run(f, s, (const('x.ly'), param('node')))
        label = 'x.ly where {}{}'.format(', '.join(have) or 'nothing', ' (empty)' if empty else '')
        if r.value is None or r.value.op not in ('const', 'new'):
            c.unknown('once', label, 'result is {}'.format(show(r.value)))
            continue
        got = None if r.value is NONE else document(fs, fs.w, r.value, r.state.heap)
        c.ob('once', label, got == want, 'finds {} instead of {}'.format(got, want), f.where)


def absent(c, m):
    """Exceptions of loading mean that there is no document."""
    cls = m.cls('dom.scope.Scope')
    f = cls.lookup('get_document')[2]
    for exc in ERRORS:
        fs = Files(m, ['/a/main.ly'])
        s = fs.scope('/a/main.ly')

        def on_call(I, st, fn, args, kws, nd):
            if fn is FACTORY:
                t = mk('call', fn, tuple(args), (), 0)
                I.may_raise(st, exc, mk('ok', 'load', t), nd)
                return t
            return fs.on_call(I, st, fn, args, kws, nd)
        fs.w.on_call = on_call
        r = fs.w.run(f, s, (const('/a/x.ly'),))
        out = {x.args[0] for st, x in r.raises}
        c.ob('absent', exc, exc not in out, '{} when loading a document is not handled'.format(exc), f.where)
        vals = [v for st, v in r.returns]
        c.ob('absent', exc + ': result', any(v is NONE for t in vals for v, _ in leaves(t)), 'no document is not None', f.where)
    # a file name that is no valid url
    f = cls.lookup('urls')[2]
    fs = Files(m, ['/a/main.ly'])
    s = fs.scope('/a/main.ly')

    def on_call(I, st, fn, args, kws, nd):
        if fn.op == 'ext' and fn.args[0].rpartition('.')[2] in ('urljoin', 'urlparse', 'urlsplit') \
                and any(a is param('name') for a in args):
            I.may_raise(st, 'ValueError', mk('ok', 'url', mk('call', fn, tuple(args), (), 0)), nd)
            return mk('call', fn, tuple(args), (), 0)
        return fs.on_call(I, st, fn, args, kws, nd)
    fs.w.on_call = on_call
    r = fs.w.run(f, s, (param('name'),))
    out = {x.args[0] for st, x in r.raises}
    c.ob('absent', 'invalid url', 'ValueError' not in out, 'a file name that is no valid url is not handled', f.where)


# ------------------------------------------------------------------- the search

NODE, INC, REF, BLOCK = 'node', 'include', 'reference', 'block'


class Graph(Files):
    """Documents with a row of nodes.

    A row is a list of: a name (some node), ('inc', filename or None), a list (a block with
    assignments), 'ref' (music with the reference that the search starts from), or
    ('set', name, value).

    """
    def __init__(self, m, rows, **kw):
        super().__init__(m, list(rows), **kw)
        self.L = lambda n: m.cls('dom.lily.' + n)
        self.names = {}
        self.refs = {}
        self.rows = rows
        self.items = {}
        for path, row in rows.items():
            items = [self.item(path, x) for x in row]
            self.items[path] = [x for x in items]
            self.doms[path] = self.w.node(self.L('Document'), *items)

    def item(self, path, x):
        w, L = self.w, self.L
        if isinstance(x, list):
            t = w.node(L('Paper'), *(self.item(path, y) for y in x))
            self.names[t] = (path, 'block')
        elif x == 'ref':
            r = w.node(L('IdentifierRef'))
            w.set(r, 'head', const('music'))
            self.refs[path] = r
            t = w.node(L('MusicList'), r)
            self.names[t] = (path, 'ref')
            self.names[r] = (path, 'the ref')
        elif isinstance(x, tuple) and x[0] == 'inc':
            ch = []
            if x[1] is not None:
                s = w.node(L('String'))
                w.set(s, 'head', const(x[1]))
                ch.append(s)
            t = w.node(L('Include'), *ch)
            self.names[t] = (path, 'include ' + str(x[1]))
        elif isinstance(x, tuple) and x[0] == 'set':
            sym = w.node(L('Symbol'))
            w.set(sym, 'head', const(x[1]))
            val = w.node(L('MusicList'))
            self.names[val] = (path, x[2])
            t = w.node(L('Assignment'), w.node(L('Identifier'), sym), w.node(L('EqualSign')), val)
            self.names[t] = (path, 'set ' + x[2])
        else:
            t = w.node(L('Note'))
            self.names[t] = (path, x)
        return t

    # the meaning
    def resolve(self, chain, name):
        if name is None:
            return None
        for base in (chain[-1], chain[0]):
            u = urljoin(base, name)
            if u in self.docs and u not in chain:
                return u
        return None

    def back(self, row, chain, path):
        for x in reversed(row):
            if isinstance(x, tuple) and x[0] == 'inc':
                u = self.resolve(chain, x[1])
                if u is not None and u in self.doms and u not in self.unfinished and u not in self.other:
                    yield from self.back(self.rows[u], chain + [u], u)
                    continue
                yield (path, 'include ' + str(x[1])), path
            elif isinstance(x, list):
                yield (path, 'block'), path
            elif isinstance(x, tuple):
                yield (path, 'set ' + x[2]), path
            else:
                yield (path, x), path
    other = ()

    def before(self, row, what):
        """The rows before the item, from inner to outer."""
        for i, x in enumerate(row):
            if x == what:
                return [row[:i]]
            if isinstance(x, list):
                r = self.before(x, what)
                if r is not None:
                    return r + [row[:i]]
        return None

    def meaning(self, chain, start='ref'):
        """chain: [(path, include item in the parent)] from the root."""
        out = []
        for i in range(len(chain) - 1, -1, -1):
            path = chain[i][0]
            what = start if i == len(chain) - 1 else chain[i + 1][1]
            for row in self.before(self.rows[path], what):
                out.extend(self.back(row, [p for p, _ in chain[:i + 1]], path))
        return out


GRAPHS = {
    'no include': ({'/a/m.ly': ['p', 'q', 'ref', 'r']}, ['/a/m.ly']),
    'include': ({'/a/m.ly': ['p', ('inc', 'b.ly'), 'q', 'ref'], '/a/b.ly': ['s', 't']}, ['/a/m.ly']),
    'two includes': ({'/a/m.ly': [('inc', 'b.ly'), 'q', ('inc', 'c.ly'), 'ref'], '/a/b.ly': ['s', 't'], '/a/c.ly': ['u']}, ['/a/m.ly']),
    'the same twice': ({'/a/m.ly': [('inc', 'b.ly'), 'q', ('inc', 'b.ly'), 'ref'], '/a/b.ly': ['s', 't']}, ['/a/m.ly']),
    'nested': ({'/a/m.ly': ['p', ('inc', 'b.ly'), 'q', 'ref'], '/a/b.ly': ['s', ('inc', 'c.ly'), 't'], '/a/c.ly': ['u', 'v']}, ['/a/m.ly']),
    'nested, last and first': ({'/a/m.ly': ['p', ('inc', 'b.ly'), 'q', 'ref'], '/a/b.ly': [('inc', 'c.ly'), 's', ('inc', 'c.ly')],
                                '/a/c.ly': ['u', ('inc', 'd.ly')], '/a/d.ly': ['x']}, ['/a/m.ly']),
    'missing': ({'/a/m.ly': ['p', ('inc', 'x.ly'), 'q', ('inc', None), 'ref']}, ['/a/m.ly']),
    'missing, nested': ({'/a/m.ly': ['p', ('inc', 'b.ly'), 'q', 'ref'], '/a/b.ly': ['s', ('inc', 'x.ly'), 't']}, ['/a/m.ly']),
    'itself': ({'/a/m.ly': ['p', ('inc', 'm.ly'), 'q', 'ref']}, ['/a/m.ly']),
    'circle of two': ({'/a/m.ly': ['p', ('inc', 'b.ly'), 'q', 'ref'], '/a/b.ly': ['s', ('inc', 'm.ly'), 't']}, ['/a/m.ly']),
    'circle of three': ({'/a/m.ly': ['p', ('inc', 'b.ly'), 'q', 'ref'], '/a/b.ly': ['s', ('inc', 'c.ly'), 't'],
                         '/a/c.ly': [('inc', 'm.ly'), 'u', ('inc', 'b.ly')]}, ['/a/m.ly']),
    'empty': ({'/a/m.ly': ['p', ('inc', 'b.ly'), 'q', 'ref'], '/a/b.ly': []}, ['/a/m.ly']),
    'directories': ({'/a/m.ly': ['p', ('inc', 'b/b.ly'), 'q', 'ref'], '/a/b/b.ly': [('inc', 'c.ly'), ('inc', 'd.ly')],
                     '/a/c.ly': ['u'], '/a/b/c.ly': ['v'], '/a/d.ly': ['w']}, ['/a/m.ly']),
    'block': ({'/a/m.ly': ['p', ('inc', 'b.ly'), ['q', ('inc', 'c.ly'), 'ref', 'z'], 'y'], '/a/b.ly': ['s'], '/a/c.ly': ['t', 'u']}, ['/a/m.ly']),
    'from an included document': ({'/a/m.ly': ['p', ('inc', 'c.ly'), 'q', ('inc', 'b.ly'), 'r'], '/a/b.ly': ['s', 'ref', 't'],
                                   '/a/c.ly': ['u']}, ['/a/m.ly', '/a/b.ly']),
    'from a nested document': ({'/a/m.ly': ['p', ('inc', 'b.ly'), 'r'], '/a/b.ly': ['s', ('inc', 'c.ly'), 't'],
                                '/a/c.ly': ['u', 'ref']}, ['/a/m.ly', '/a/b.ly', '/a/c.ly']),
    'from an included document that includes': ({'/a/m.ly': ['p', ('inc', 'b.ly'), 'r'], '/a/b.ly': [('inc', 'c.ly'), 's', 'ref'],
                                                 '/a/c.ly': ['u', ('inc', 'm.ly')]}, ['/a/m.ly', '/a/b.ly']),
    'unfinished': ({'/a/m.ly': ['p', ('inc', 'b.ly'), 'q', 'ref'], '/a/b.ly': ['s']}, ['/a/m.ly'], ('/a/b.ly',)),
    'no music document': ({'/a/m.ly': ['p', ('inc', 'b.html'), 'q', 'ref'], '/a/b.html': ['s']}, ['/a/m.ly'], (), ('/a/b.html',)),
}


def make(m, name):
    rows, chain, *more = GRAPHS[name]
    empty = [p for p, r in rows.items() if not r]
    g = Graph(m, rows, unfinished=more[0] if more else (), empty=empty)
    if len(more) > 1:
        g.other = more[1]
        for p in g.other:
            g.doms[p] = g.w.node(m.cls('dom.htm.Document'))
    # the scopes
    s, parent, full = NONE, None, []
    for p in chain:
        if parent is None:
            s = g.scope(p)
            full.append((p, None))
        else:
            inc = ('inc', p.rpartition('/')[2])
            i = rows[parent].index(inc)
            s = g.scope(p, s, g.items[parent][i])
            full.append((p, inc))
        parent = p
    return g, s, full


def follow(c, m):
    """The nodes that are visited, with the document they are in."""
    cls = m.cls('dom.lily.Lookup')
    f = cls.lookup('preceding_nodes')[2]
    for name in GRAPHS:
        for scoped in (True, False):
            g, s, full = make(m, name)
            if not scoped:
                if len(full) > 1 or name != 'block' and name != 'include':
                    continue
                s = NONE
            wait = param('wait')
            lk = g.w.new(cls, g.refs[full[-1][0]], s, wait)
            r = g.w.run(f, lk)
            label = name + ('' if scoped else ', without scope')
            want = g.meaning(full)
            if not scoped:
                want = []
                for row in g.before(g.rows[full[0][0]], 'ref'):
                    for x in reversed(row):
                        want.append(((full[0][0], 'include {}'.format(x[1]) if isinstance(x, tuple) else 'block' if isinstance(x, list) else x), None))
            got, bad = [], None
            crash = [e for e in r.events if e.kind == 'crash' and decided(e)]
            if crash:
                c.ob('follow', label, False, 'fails with {}'.format(crash[0].args[0].args[0]), f.where)
                continue
            heap = r.state.heap if r.state is not None else None
            if heap is None or any(e.kind == 'endless' for e in r.events):
                c.ob('follow', label, False, 'the search never ends', f.where)
                continue
            for e in r.yields:
                t = e.args[0]
                if t.op != 'tuple' or t.args[0] not in g.names or not decided(e):
                    bad = t
                    break
                sc = t.args[1]
                if sc is NONE:
                    got.append((g.names[t.args[0]], None))
                elif sc.op == 'new':
                    got.append((g.names[t.args[0]], document(g, g.w, sc, heap)))
                else:
                    bad = t
                    break
            if bad is not None:
                c.unknown('follow', label, 'visits {}'.format(show(bad)))
                continue
            c.ob('follow', label, got == want, 'visits {} instead of {}'.format(brief(got), brief(want)), f.where)
            if scoped and g.waits:
                c.ob('follow', label + ': wait', all(x is wait for _, x in g.waits), 'waits for a transformation although told not to', f.where)
            c.unit('graph')


def decided(e):
    """Whether an event happens exactly once in every run."""
    return not any(isinstance(x, int) for x in e.loops) and all(x.op == 'ok' for x, _ in e.state.path)


def brief(l):
    return ', '.join('{}{}'.format(n[1], '' if d == n[0] else ' (as of {})'.format(d)) for n, d in l) or 'nothing'


VALUES = {
    'here': ({'/a/m.ly': [('set', 'music', 'v1'), ('set', 'music', 'v2'), ('set', 'other', 'v3'), 'ref', ('set', 'music', 'v4')]}, ['/a/m.ly'], ('/a/m.ly', 'v2')),
    'included': ({'/a/m.ly': [('set', 'music', 'v1'), ('inc', 'b.ly'), 'p', 'ref'], '/a/b.ly': [('set', 'music', 'v2'), 'q']}, ['/a/m.ly'], ('/a/b.ly', 'v2')),
    'parent': ({'/a/m.ly': [('set', 'music', 'v1'), ('inc', 'b.ly'), ('set', 'music', 'v3')], '/a/b.ly': [('set', 'other', 'v2'), 'ref']},
               ['/a/m.ly', '/a/b.ly'], ('/a/m.ly', 'v1')),
    'nowhere': ({'/a/m.ly': [('set', 'other', 'v1'), 'ref', ('set', 'music', 'v2')]}, ['/a/m.ly'], None),
    'missing include': ({'/a/m.ly': [('set', 'music', 'v1'), ('inc', 'b.ly'), 'ref']}, ['/a/m.ly'], ('/a/m.ly', 'v1')),
}


def values(c, m):
    """The nearest definition before the reference, with the scope it is in."""
    for name, (rows, chain, want) in VALUES.items():
        GRAPHS[name + ' (value)'] = (rows, chain)
        try:
            g, s, full = make(m, name + ' (value)')
        finally:
            del GRAPHS[name + ' (value)']
        ref = g.refs[full[-1][0]]
        k = g.w.types[ref]
        f = k.lookup('get_value_with_scope')[2]
        r = g.w.run(f, ref, (s, param('wait')))
        v = r.value
        if v is NONE:
            got = None
        elif v is not None and v.op == 'tuple' and len(v.args) == 2 and v.args[0] in g.names and v.args[1].op == 'new':
            got = g.names[v.args[0]]
            d = document(g, g.w, v.args[1], r.state.heap)
            c.ob('value', name + ': scope', want is None or d == want[0], 'the scope is that of {}'.format(d), f.where)
        else:
            c.unknown('value', name, 'is {}'.format(show(v)))
            continue
        c.ob('value', name, got == want, 'is {} instead of {}'.format(got, want), f.where)
        if want is None:
            c.ob('value', name + ': scope', True, '', f.where)
        f = k.lookup('get_value')[2]
        r = g.w.run(f, ref, (s, param('wait')))
        got = None if r.value is NONE else g.names.get(r.value, '?')
        c.ob('value', name + ': get_value', got == want, 'is {} instead of {}'.format(got if got != '?' else show(r.value), want), f.where)
