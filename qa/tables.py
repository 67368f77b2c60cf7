"""Class level tables from texts or actions to element types."""
import ast
from .model import Class
from .lexicons import Lexicons


class Tables:
    def __init__(self, m, E, L=None):
        self.m, self.E = m, E
        self.L = L or Lexicons(m)
        self._cache = {}

    def all(self, classes):
        """(Class, name) of all class level tables in the classes themselves."""
        for cls in classes:
            for name, e in sorted(cls.assigns.items()):
                if self.pairs(cls, name):
                    yield cls, name

    def pairs(self, cls, name):
        """[(text, action or None, Class or None, text of the value)] or None if this is no table."""
        r = cls.lookup(name)
        if not r or r[1] != 'assign':
            return None
        k = (r[0], name)
        if k not in self._cache:
            self._cache[k] = self.of(r[0], r[2])
        return self._cache[k]

    def of(self, cls, e):
        m = self.m
        if isinstance(e, ast.Name):
            r = cls.lookup(e.id)
            if r and r[1] == 'assign' and r[2] is not e:
                return self.of(r[0], r[2])
            return None
        if isinstance(e, ast.BinOp) and isinstance(e.op, ast.BitOr):
            a, b = self.of(cls, e.left), self.of(cls, e.right)
            return None if a is None or b is None else a + b
        if isinstance(e, ast.Dict):
            out = []
            for key, v in zip(e.keys, e.values):
                if key is None:
                    p = self.of(cls, v)
                    if p is None:
                        return None
                    out.extend(p)
                    continue
                act = self.L.action(cls.module, key)
                text = None
                if act is None:
                    try:
                        text = m.literal(cls.module, key, cls)
                    except ValueError:
                        return None
                out.append((text, act, self.klass(cls, v), ast.unparse(v)))
            return out
        if isinstance(e, ast.Call):
            f = ast.unparse(e.func).split('.')[-1]
            if f == 'head_mapping' and not e.keywords:
                out = []
                for x in e.args:
                    if isinstance(x, ast.Starred):
                        return None
                    k = m.resolve_expr(cls.module, x)
                    if not isinstance(k, Class):
                        return None
                    ts = self.E.texts(k)
                    if ts is None:
                        out.append((None, None, k, ast.unparse(x)))
                    else:
                        out.extend((t, None, k, ast.unparse(x)) for t in ts)
                return out
            if f == 'dict' and not e.args:
                return [(kw.arg, None, self.klass(cls, kw.value), ast.unparse(kw.value)) for kw in e.keywords if kw.arg]
        return None

    def klass(self, cls, v):
        k = self.m.resolve_expr(cls.module, v)
        return k if isinstance(k, Class) else None
