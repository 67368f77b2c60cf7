"""The functions that make elements from source text, and what they make."""
from .lib import *
from .elements import Elements
from .tables import Tables


class Made:
    """One construction of an element from source text."""

    def __init__(self, e, cls, head, tail, children, how, handlers=None, home=None):
        self.handlers, self.home = handlers, home
        self.event, self.cls, self.head, self.tail, self.children, self.how = e, cls, head, tail, children, how
        self.where, self.facts = e.where, e.facts

    def classes(self):
        """[(Class or None, conditions)] of the possible types."""
        out = []
        for t, conds in leaves(self.cls):
            if t.op == 'cls' and isinstance(t.args[0], Class):
                out.append((t.args[0], conds))
            else:
                p = self.lookup(t)
                out.extend([(k, conds) for k in dict.fromkeys(x[2] for x in p)] if p else [(None, conds)])
        return out

    def lookup(self, t):
        """The entries of the class level table a type is looked up in."""
        h = self.handlers
        if h is None or self.home is None:
            return None
        if t.op == 'item':
            t = t.args[0]
        elif t.op == 'call' and callee_name(t.args[0]) == 'get':
            t = callee_base(t.args[0])
        else:
            return None
        if t is not None and t.op == 'attr' and t.args[0].op in ('param', 'cls', 'self'):
            return h.tables.pairs(self.home, t.args[1])
        return None


class Handlers:
    OPAQUE = {'factory', 'build_tree', 'create_music', 'with_origin', 'from_origin', 'copy_origin_from', 'copy_with_origin'}

    def __init__(self, m, extra=()):
        self.m = m
        self.E = Elements(m)
        self.tables = Tables(m, self.E)
        self.base = m.cls('dom.base.Transform')
        self.adhoc = m.cls('dom.base.AdHocTransform')
        self.transforms = [k for k in m.subclasses(self.base) if k is not self.base]
        self.langs = sorted({k.module.name: k.module for k in self.transforms}.items())
        self.modules = [x for _, x in self.langs]
        self.opaque = self.OPAQUE | set(extra)
        self._runs = {}

    def functions(self):
        """(Func, Class) of all methods in the modules that have transforms."""
        out = []
        for f in self.m.all_funcs():
            if f.module in self.modules and not f.name == 'factory':
                out.append((f, f.cls))
        return sorted(out, key=lambda x: x[0].qualname)

    def run(self, f, cls):
        k = (f, cls)
        if k not in self._runs:
            I = node_interp(self.m, opaque=self.opaque)
            I.handlers = self
            r = I.run(f, cls=cls)
            r.home = cls
            self._runs[k] = (I, r)
        return self._runs[k]

    def made(self, r):
        """All elements a run makes."""
        out = []
        for e in r.events:
            if e.kind == 'call':
                n = callee_name(e.args[0])
                if n == 'factory':
                    a = list(e.args[1])
                    kw = dict((x.args[0], x.args[1]) if hasattr(x, 'op') else x for x in e.args[2])
                    names = ['element_class', 'head_origin', 'tail_origin']
                    pos = [a[i] if i < len(a) else kw.get(names[i]) for i in range(3)]
                    out.append(Made(e, pos[0], pos[1], pos[2], a[3:], 'factory', self, getattr(r, 'home', None)))
            elif e.kind == 'new' and e.args[1:] and e.args[0].op == 'new':
                k = self.newclass(e.args[0])
                if k is not None and k.issub(self.E.base):
                    out.append(Made(e, mk('cls', k), None, None, list(e.args[1]), 'new'))
        return out

    @staticmethod
    def newclass(t):
        for x in t.args:
            if isinstance(x, Class):
                return x
            if hasattr(x, 'op') and x.op == 'cls' and isinstance(x.args[0], Class):
                return x.args[0]
        return None
