"""Every command text leads to exactly one element type, which writes that text.

The tables from texts to element types are folded from the source; for every
element made from a token, the texts that token can have (as far as the lexicons
or the registration of the handler limit them, and the conditions on the way
there allow) are compared with the fixed texts of the type that is chosen.
"""
import re

from ..lib import *
from ..handlers import Handlers
from ..lexicons import Act
from . import X03

TECHNIQUE = 'folding of dispatch tables and lexicon word lists, compared with the fixed texts of the types chosen (value flow)'
NOTE = ('All tables, handlers and element types of the four languages. Texts are known where the lexicon or the registration lists '
        'them; tokens with free text are not followed. Types made of several tokens are compared by their first one.')


def check(c):
    m = c.model
    H = Handlers(m)
    L, R, trans, documented = X03.reachable(m)
    check_tables(c, m, H)
    T = Texts(c, m, H, L, R, trans)
    for f, cls in H.functions():
        c.guard('text', f.qualname, lambda: T.func(f, cls))
    check_reach(c, m, H, T.made)
    check_read(c, m, H, T)
    c.floor('once', 40)
    c.floor('text', 60)
    c.floor('reach', 120)
    c.floor('read', 180)


# -- the tables
def check_tables(c, m, H):
    E = H.E
    for mod in H.modules:
        classes = sorted({k for k in mod.classes.values()}, key=lambda k: k.name)
        for cls, name in H.tables.all(classes):
            c.unit('tables')
            seen = {}
            for text, act, k, shown in H.tables.pairs(cls, name):
                con = '{}.{}: {}'.format(cls.name, name, text if act is None else act.name)
                key = (text, act)
                if text is None and act is None:
                    c.ob('once', '{}.{}: {}'.format(cls.name, name, shown), False, 'the type has no fixed text', cls.where)
                    continue
                c.ob('once', con, key not in seen or seen[key] is k, 'claimed by {} and by {}'.format(shown, seen.get(key) and seen[key].name), cls.where)
                seen.setdefault(key, k)
                if act is None and isinstance(text, str) and k is not None:
                    ts = E.texts(k)
                    if ts is not None:
                        c.ob('text', con, first(text) in {first(t) for t in ts}, '{} is written as {}'.format(shown, ' or '.join(sorted(ts)[:4])), cls.where)
    # a table and a dispatcher that are looked at one after the other
    for mod in H.modules:
        for cls in sorted(mod.classes.values(), key=lambda k: k.name):
            if not isinstance(cls, Class):
                continue
            disp = {}
            for f, d in X03.registered(cls):
                if isinstance(d, ast.Call) and isinstance(d.func, ast.Name):
                    for x in d.args:
                        if isinstance(x, ast.Constant):
                            disp.setdefault(d.func.id, {})[x.value] = f
            for f in [v for v in cls.methods.values()] + list(cls.registered):
                names = {n.attr for n in ast.walk(f.node) if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id in ('self', 'cls')}
                for d in names & set(disp):
                    for t in sorted(names):
                        keys = {p[0] for p in H.tables.pairs(cls, t) or () if p[1] is None}
                        for k, g in sorted(disp[d].items()) if keys else ():
                            c.ob('once', '{}.{} and {}: {}'.format(cls.name, t, d, k), k not in keys, 'two ways to handle the same text', g.where)


def first(t):
    return t.split()[0] if isinstance(t, str) and t.split() else t


class Forms:
    """The terms that denote a token."""

    def __init__(self, tok):
        self.tok = tok

    def __contains__(self, t):
        if not isinstance(self.tok, tuple):
            return t is self.tok
        if t.op != 'item' or not (is_const(t.args[1]) and t.args[1].args[0] == 0):
            return False
        x = t.args[0]
        if x.op == 'slice' and (x.args[1] is NONE or is_const(x.args[1]) and x.args[1].args[0] == 0):
            x = x.args[0]
        return x is self.tok[1]


# -- texts of tokens
class Texts:
    def __init__(self, c, m, H, L, R, trans):
        self.c, self.m, self.H, self.L, self.R, self.trans = c, m, H, L, R, trans
        self.made = set()
        self.read = set()
        self.done = set()
        self.music = X03.music_contexts(m, L, R, trans)
        self.disp = {}          # (class, dispatcher) -> {key: Func}
        self.builder = m.cls('lang.lilypond.MusicBuilder')

    def keys(self, cls, name):
        k = (cls, name)
        if k not in self.disp:
            t = self.disp[k] = {}
            for f, d in X03.registered(cls):
                if isinstance(d, ast.Call) and isinstance(d.func, ast.Name) and d.func.id == name:
                    for x in d.args:
                        act = None if isinstance(x, ast.Constant) else self.L.action(f.module, x)
                        t[act.name if act is not None else getattr(x, 'value', None)] = f
        return self.disp[k]

    def func(self, f, cls):
        """Compare the elements made in a function."""
        I, r = self.H.run(f, cls)
        made = self.H.made(r)
        self.reached(r, made)
        self.c.unit('functions')
        cands = self.candidates(f, cls)
        for x in made:
            if x.how != 'factory' or x.head is None:
                continue
            tok = self.first_token(x.head)
            if tok is None:
                continue
            for base, words in cands:
                if tok == base:
                    self.compare(x, tok, words)
            texts = self.tested(x, tok)
            if texts:
                self.compare(x, tok, [(w, None) for w in sorted(texts)])

    def reached(self, r, made):
        E = self.H.E
        for x in made:
            for k, _ in x.classes():
                if k is not None:
                    self.made.add(k)
        for e in r.events:
            for a in e.args:
                self.types(a)
        if r.value is not None:
            self.types(r.value)

    def types(self, a):
        """Types that are handed on as a value."""
        if isinstance(a, (tuple, list)):
            for y in a:
                self.types(y)
        elif hasattr(a, 'op'):
            for t in subterms(a):
                if t.op == 'ite':
                    for y in t.args[1:]:
                        self.value(y)
            self.value(a)

    def value(self, t):
        if t.op == 'cls' and isinstance(t.args[0], Class):
            self.made.add(t.args[0])
        elif t.op == 'new':
            k = self.H.newclass(t)
            if k is not None:
                self.made.add(k)

    def candidates(self, f, cls):
        """[(token term, [(text, action)])] of the tokens a function is called with."""
        out = []
        ps = f.params()
        reg = [(d.func.id, d.args) for d in f.node.decorator_list if isinstance(d, ast.Call) and isinstance(d.func, ast.Name)]
        words = []
        for name, args in reg:
            if not self.keys(cls, name):
                continue
            for x in args:
                if isinstance(x, ast.Constant):
                    if name != '_context':
                        words.append((x.value, None))
                else:
                    act = self.L.action(f.module, x)
                    if act is not None and cls is self.builder:
                        words.extend(self.by_action(cls, name, act.name))
        if words and len(ps) > 1:
            out.append((param(ps[1]), sorted(set(words), key=str)))
        # contexts
        heads = set()
        for lc, tc in self.trans.items():
            if tc is cls or cls is not None and tc.issub(cls):
                for x in self.R:
                    if x.cls is lc and x.name == f.name:
                        for tk in self.R[x][1]:
                            if tk.edge == 'head' and not tk.pos:
                                ws = X03.words_of(self.m, tk)
                                if ws is None:
                                    heads.add(None)
                                else:
                                    heads.update((w, tk.action) for w in ws)
        if heads and len(ps) > 1 and None not in heads:
            out.append((('first', param(ps[1])), sorted(heads)))
        return [(b, w) for b, w in out]

    def by_action(self, cls, name, key):
        t = self.keys(cls, name)
        for x in self.music:
            for tk in self.R[x][1]:
                if tk.edge == 'head':
                    continue
                hit = next((p for p in Act(tk.action).parents() if p in t), None)
                if hit == key:
                    for w in X03.words_of(self.m, tk) or ():
                        if not any(w in self.keys(cls, d) for d in ('_token', '_keyword') if d != name):
                            yield (w, tk.action)

    def first_token(self, head):
        if head.op == 'tuple' and head.args:
            return head.args[0]
        if head.op == 'slice' and (head.args[1] is NONE or is_const(head.args[1]) and head.args[1].args[0] == 0):
            return ('first', head.args[0])
        if head.op == 'slice' and is_const(head.args[1]) is False:
            return mk('item', head.args[0], head.args[1])
        return None

    def tested(self, x, tok):
        """The texts the conditions leave for a token."""
        from .X02 import allowed
        got = None
        forms = self.forms(tok)
        for t in {t for f in x.facts for t in subterms(f) if t in forms}:
            a = allowed(x.facts, t)
            if a is not None:
                got = a if got is None else got & a
        return None if got is None else {g for g in got if isinstance(g, str)}

    def forms(self, tok):
        return Forms(tok)

    def compare(self, x, tok, words):
        E = self.H.E
        forms = self.forms(tok)
        for w, act in words:
            for k in self.chosen(x, forms, w, act):
                if k is None:
                    continue
                ts = E.texts(k)
                self.read.add((k, w))
                if ts is None or not k.issub(E.headed) and not k.issub(E.mapped):
                    continue
                name = x.where.split('(')[-1].rstrip(')').replace('quickly.lang.', '')
                con = '{}: {} from {}'.format(name, k.name, w)
                if (con, k) in self.done:
                    continue
                self.done.add((con, k))
                self.c.ob('text', con, first(w) in {first(t) for t in ts}, '{} is written as {}'.format(k.name, ' or '.join(sorted(map(str, ts))[:4])), x.where)

    def chosen(self, x, forms, w, act):
        """The types made when the token has this text and action."""
        if any(self.eval(f, forms, w, act) is (not v) for f, v in x.facts.items()):
            return
        for t, conds in leaves(x.cls):
            if any(self.eval(f, forms, w, act) is (not v) for f, v in dict(conds).items()):
                continue
            if t.op == 'cls' and isinstance(t.args[0], Class):
                yield t.args[0]
                continue
            p = x.lookup(t)
            if not p:
                continue
            key = t.args[1] if t.op == 'item' else t.args[1][0]
            kind = self.about(key, forms)
            if kind == 'text':
                yield from dict.fromkeys(y[2] for y in p if y[0] == w)
                if t.op == 'call' and len(t.args[1]) > 1 and not any(y[0] == w for y in p):
                    d = t.args[1][1]
                    if d.op == 'cls' and isinstance(d.args[0], Class):
                        yield d.args[0]
            elif kind == 'action' and act is not None:
                yield from dict.fromkeys(y[2] for y in p if y[1] is not None and y[1].name == act)

    @staticmethod
    def about(t, forms):
        if t in forms:
            return 'text'
        if t.op == 'attr' and t.args[0] in forms:
            return {'text': 'text', 'action': 'action'}.get(t.args[1])
        return None

    def eval(self, cond, forms, w, act):
        """Whether a condition holds for a token with this text; None when not known."""
        op = cond.op
        if op == 'not':
            v = self.eval(cond.args[0], forms, w, act)
            return None if v is None else not v
        if op == 'truth' and cond.args[0].op in ('and', 'or', 'not', 'cmp'):
            return self.eval(cond.args[0], forms, w, act)
        if op in ('and', 'or'):
            vs = [self.eval(a, forms, w, act) for a in cond.args]
            if any(v is (op == 'or') for v in vs):
                return op == 'or'
            return None if None in vs else op == 'and'
        if op == 'ok' and cond.args and cond.args[0] == 'item' and len(cond.args) > 2:
            return self.member(cond.args[2], cond.args[1], forms, w, act)
        if op == 'in':
            return self.member(cond.args[0], cond.args[1], forms, w, act)
        if op == 'cmp':
            o, a, b = cond.args
            if o in ('in', 'not in'):
                v = self.member(a, b, forms, w, act)
                return None if v is None else v == (o == 'in')
            if o in ('==', '!=', 'is', 'is not'):
                for x, y in ((a, b), (b, a)):
                    kind = self.about(x, forms)
                    v = None
                    if kind == 'text' and is_const(y) and isinstance(y.args[0], str):
                        v = w == y.args[0]
                    elif kind == 'action' and act is not None:
                        n = action_name(y)
                        v = None if n is None else n == act
                    if v is not None:
                        return v == (o in ('==', 'is'))
        return None

    def member(self, a, b, forms, w, act):
        kind = self.about(a, forms)
        if kind is None:
            return None
        if b.op in ('tuple', 'list', 'set'):
            if kind == 'text' and all(is_const(y) for y in b.args):
                return w in [y.args[0] for y in b.args]
            if kind == 'action' and act is not None:
                ns = [action_name(y) for y in b.args]
                return None if None in ns else act in ns
        if b.op == 'attr' and b.args[0].op in ('param', 'cls', 'self'):
            p = self.H.tables.pairs(self.builder, b.args[1])
            if p and kind == 'text':
                return any(y[0] == w for y in p)
            if p and act is not None:
                return any(y[1] is not None and y[1].name == act for y in p)
        return None


def action_name(t):
    parts = []
    while t.op == 'attr':
        parts.append(t.args[1])
        t = t.args[0]
    if t.op == 'global' and len(t.args) == 2 and t.args[0] == 'parce.action':
        return '.'.join([t.args[1]] + parts[::-1])
    return None


# -- the types
# types that are written, but for which there is no source text of their own
def check_reach(c, m, H, made):
    E = H.E
    for n in ('lily', 'scm', 'htm', 'tex'):
        mod = m.module('quickly.dom.' + n)
        for k in sorted((k for k in mod.classes.values() if isinstance(k, Class)), key=lambda k: k.name):
            if not k.issub(E.base) or not E.texts(k):
                continue
            if not E.leaf(k) and k not in made:
                subs = [s for s in m.subclasses(k) if s is not k]
                if any(s in made for s in subs):
                    continue
            c.ob('reach', '{}.{}'.format(n, k.name), k in made, 'no source text is read as this type ({})'.format(' or '.join(sorted(map(str, E.texts(k)))[:3])), k.where)


# commands of LilyPond the parser library does not list; they are read as references to a name
UNLISTED = {r'\slashedGrace', r'\voiceFive', r'\voiceSix', r'\palmMuteOff',
            r'\phrasingSlurHalfDashed', r'\phrasingSlurHalfSolid', r'\slurHalfDashed', r'\slurHalfSolid',
            r'\tieHalfDashed', r'\tieHalfSolid',
            r'\phrasingSlurDashPattern', r'\slurDashPattern', r'\tieDashPattern'}


def check_read(c, m, H, T):
    """Every command of a type is read as that type."""
    E = H.E
    words = set()
    for x in T.R:
        for tk in T.R[x][1]:
            words.update(X03.words_of(m, tk) or ())
    read = {(k, first(w)) for k, w in T.read}
    kinds = {k for k, w in T.read}
    mod = m.module('quickly.dom.lily')
    for k in sorted((k for k in mod.classes.values() if isinstance(k, Class)), key=lambda k: k.name):
        if not k.issub(E.base) or not (k.issub(E.headed) or k.issub(E.mapped)) or k not in T.made:
            continue
        for t in E.texts(k) or ():
            if not isinstance(t, str) or not re.match(r'\\[A-Za-z]', t) and k not in kinds or t in UNLISTED:
                continue
            w = first(t)
            c.ob('read', '{}: {}'.format(k.name, t), (k, w) in read,
                 'the lexicons know this text, but it is not read as this type' if w in words else 'no lexicon knows this text', k.where)
