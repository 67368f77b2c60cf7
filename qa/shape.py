"""Abstract objects of a known shape.

A World holds objects of classes of the program in an abstract heap. The objects are made
and connected by interpreting the program's own constructors and methods, so that the way
they are represented does not matter. Values can be unknown terms. Functions are then
interpreted on these objects: everything that depends only on the shape is decided.
"""
from .lib import *
from .gvf import State


class World:
    def __init__(self, m, on_call=None, unroll=40, unroll_while=60, **kw):
        self.m = m
        self.heap = {}
        self.types = {}
        self.facts = []
        self.oracle = None      # decides conditions nothing is known about
        self.sent = None        # what is sent to generators
        self.frames = {}        # the variables of the closures in the heap
        self.count = 0
        self.sites = 0
        self.on_call = on_call
        self.unroll = unroll
        self.unroll_while = unroll_while
        self.kw = kw

    def copy(self):
        w = World(self.m, self.on_call, self.unroll, self.unroll_while, **self.kw)
        w.heap, w.types, w.facts, w.count, w.sites = dict(self.heap), dict(self.types), list(self.facts), self.count, self.sites
        w.frames = dict(self.frames)
        w.oracle, w.sent = self.oracle, self.sent
        return w

    def adopt(self, st):
        """Continue from a state."""
        self.heap = dict(st.heap)
        todo = [t for v in self.heap.values() if isinstance(v, T) for t in subterms(v) if t.op == 'closure']
        self.frames = {}
        while todo:
            fid = todo.pop().args[1]
            while fid is not None and fid in st.frames and fid not in self.frames:
                f = self.frames[fid] = st.frames[fid]
                todo.extend(t for v in f.values() if isinstance(v, T) for t in subterms(v) if t.op == 'closure')
                fid = f.get('@outer')

    def interp(self):
        I = node_interp(self.m, trace_states=True, on_call=self.on_call, **dict(dict(max_depth=80), **self.kw))
        I.types.update(self.types)
        I.fresh_lists = True
        I.unroll = max(I.unroll, self.unroll)
        I.max_recursion = 14
        I.unroll_while = self.unroll_while
        I.sent = self.sent
        return I

    def run(self, func, self_term=None, args=(), facts=(), cls=None, kwargs=None):
        if cls is None and self_term is not None:
            cls = self.types.get(self_term)
        I = self.interp()
        I.first_site = self.sites
        State.oracle = self.oracle
        try:
            r = I.run(func, self_term=self_term, args=args, kwargs=kwargs, cls=cls,
                      facts=list(self.facts) + list(facts), heap=self.heap, frames=self.frames)
        finally:
            State.oracle = None
        self.sites += len(I.sites)
        return r

    def method(self, obj, name, args=(), facts=(), kwargs=None):
        k = self.types[obj]
        got = k.lookup(name)
        if not got or got[1] != 'method':
            raise AnalysisBroken('{} has no method {}'.format(k.name, name))
        return self.run(got[2], obj, args, facts, k, kwargs)

    def raw(self, k):
        """An object of class k without any attribute."""
        self.count += 1
        t = mk('new', mk('cls', k), 800000 + self.count)
        self.types[t] = k
        if k.issub('list'):
            self.heap[t, '[]'] = ()
        return t

    def new(self, k, *args, **kwargs):
        """An object of class k, initialized by its own constructor."""
        t = self.raw(k)
        got = k.lookup('__init__')
        if got and got[1] == 'method':
            r = self.run(got[2], t, args, (), k, kwargs)
            if r.state is None:
                raise AnalysisBroken('{} can not be made'.format(k.name))
            self.adopt(r.state)
        return t

    def set(self, t, name, v):
        """Set an attribute, by the setter if there is one."""
        f = self.types[t].lookup_setter(name)
        if f is None:
            self.heap[t, name] = v
            return
        r = self.run(f, t, (v,))
        if r.state is None:
            raise AnalysisBroken("{} can not be set".format(name))
        self.adopt(r.state)

    def node(self, k, *children, **fields):
        """A tree node of class k with the children, linked by the program's own append()."""
        t = self.raw(k)
        init = self.m.cls('node.Node').lookup('__init__')[2]
        r = self.run(init, t, (), (), k)
        if r.state is not None:
            self.adopt(r.state)
        self.heap[t, '[]'] = ()
        for ch in children:
            r = self.method(t, 'append', (ch,))
            if r.state is None:
                raise AnalysisBroken('append() never returns')
            self.adopt(r.state)
        for name, v in fields.items():
            self.heap[t, name] = v
        return t
