"""What the source says about element types: texts, tables, kinds."""
from .lib import *


class Elements:
    def __init__(self, m):
        self.m = m
        self.base = m.cls('dom.element.Element')
        self.headed = m.cls('dom.element.HeadElement')
        self.block = m.cls('dom.element.BlockElement')
        self.text = m.cls('dom.element.TextElement')
        self.mapped = m.cls('dom.element.MappingElement')
        self.all = [c for c in m.subclasses(self.base)]

    def value(self, cls, name):
        """The class level value of an attribute, None when it has no fixed one."""
        r = cls.lookup(name)
        if not r or r[1] != 'assign':
            return None
        try:
            return self.m.literal(r[0].module, r[2], r[0])
        except ValueError:
            return None

    def head(self, cls):
        v = self.value(cls, 'head')
        return v if isinstance(v, str) else None

    def tail(self, cls):
        v = self.value(cls, 'tail')
        return v if isinstance(v, str) else None

    def pairs(self, cls):
        """The (text, value) pairs of a fixed-choice type as written; None if not understood."""
        owner = self.init_subclass(cls)
        m = self.m
        r = cls.lookup('mapping')
        if owner is not None:
            mro = [x for x in cls.mro() if isinstance(x, Class)]
            # the hook runs for subclasses of its owner, overriding a mapping in the class body
            if owner is not cls and owner in mro:
                f = owner.methods['__init_subclass__']
                return self.hook_pairs(cls, f)
        if not r or r[1] != 'assign':
            return None
        try:
            return m.class_table(r[0], 'mapping', pairs=True)
        except ValueError:
            return None

    def init_subclass(self, cls):
        """The class whose __init_subclass__ gives cls its mapping, or None."""
        for c in cls.mro():
            if isinstance(c, Class) and c is not cls and '__init_subclass__' in c.methods:
                f = c.methods['__init_subclass__']
                for n in ast.walk(f.node):
                    if isinstance(n, ast.Assign) and any(isinstance(t, ast.Attribute) and t.attr == 'mapping' for t in n.targets):
                        return c
        return None

    def hook_pairs(self, cls, f):
        me = f.params()[0]
        for n in ast.walk(f.node):
            if isinstance(n, ast.Assign) and any(isinstance(t, ast.Attribute) and t.attr == 'mapping' for t in n.targets):
                if not isinstance(n.value, ast.Dict):
                    return None
                out = []
                for k, v in zip(n.value.keys, n.value.values):
                    p = []
                    for e in (k, v):
                        if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name) and e.value.id == me:
                            p.append(self.value(cls, e.attr))
                        else:
                            try:
                                p.append(self.m.literal(f.module, e))
                            except ValueError:
                                return None
                    out.append(tuple(p))
                return out
        return None

    def texts(self, cls):
        """The fixed texts of a type: [head] or the keys of its table; None for free text."""
        if cls.issub(self.mapped):
            p = self.pairs(cls)
            return None if p is None else [k for k, v in p]
        h = self.head(cls)
        return None if h is None else [h]


    def leaf(self, cls):
        return not any(x is not cls for x in self.m.subclasses(cls))

