"""Every lexical context, token and music event has somebody who handles it.

The rules of all lexicons reachable from the four languages are read from the
source (the inherited ones of the parser library included), giving the tokens
and sub-contexts that can be the items of each context.  Each context must have
a handler in the transformation of its language (or be documented as not
transformed), and the handler, with everything it calls, must know the action
of every token and the name of every sub-context it can meet: test for it, look
it up in a dispatcher or find it in a table.
"""
from ..lib import *
from ..lexicons import Lexicons, Lex, Act
from ..handlers import Handlers

TECHNIQUE = 'grammar reachability over lexicon definitions, checked against the dispatch tables and tests in the call closure of each handler'
NOTE = ('All lexicons reachable in the LilyPond, Scheme, HTML and LaTeX languages. That a handler tests for a kind of item is decided, '
        'not what it does with it. Contexts documented as not transformed are left out, and tokens whose texts only '
        'delimit a context.')

LANGS = (('lang.lilypond.LilyPond', 'LilyPondTransform'), ('lang.scheme.Scheme', 'SchemeTransform'),
         ('lang.html.Html', 'HtmlTransform'), ('lang.latex.Latex', 'LatexTransform'))


def registered(cls):
    """All (Func, decorator call) registrations of the class and its bases."""
    for c in reversed([x for x in cls.mro() if not isinstance(x, str)]):
        for f in c.registered:
            for d in f.node.decorator_list:
                yield f, d


class Mentions:
    """What a function, with everything it calls in the project, knows of."""

    def __init__(self, m, L, home):
        self.m, self.L, self.home = m, L, home
        self.exact, self.prefix, self.strings, self.tested = set(), set(), set(), set()
        self.classes = set()
        self.ctx_any = False        # looks at results of contexts
        self.tok_any = False        # has a handler of its own for other tokens
        self.done = set()
        self.rest = None

    def func(self, f, cls):
        if (f, cls) in self.done or not f.where.startswith('quickly/'):
            return
        self.done.add((f, cls))
        self.node(f.node, f.module, cls or f.cls, f)

    def registry(self, cls, name, ancestors, seen=()):
        """All keys of a dispatcher, and what its handlers mention."""
        for f, d in registered(cls):
            if isinstance(d, ast.Call) and isinstance(d.func, ast.Name) and d.func.id == name:
                for a in d.args:
                    if isinstance(a, ast.Constant):
                        self.strings.add(a.value)
                        self.tested.add(a.value)
                    else:
                        act = self.L.action(f.module, a)
                        if act is None:
                            raise AnalysisBroken('key {} of {} not understood'.format(ast.unparse(a), f.qualname))
                        (self.prefix if ancestors else self.exact).add(act.name)

    def node(self, tree, module, cls, f):
        L = self.L
        skip = set()
        docs = {id(n.body[0].value) for n in ast.walk(tree)
                if isinstance(n, (ast.FunctionDef, ast.ClassDef)) and n.body and isinstance(n.body[0], ast.Expr)}
        deco = {id(x) for n in ast.walk(tree) if isinstance(n, ast.FunctionDef) for d in n.decorator_list for x in ast.walk(d)}
        wide = set()        # expressions whose sub-actions are included
        for n in ast.walk(tree):
            if isinstance(n, ast.Compare) or isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ('peek', 'index'):
                self.tested.update(x.value for x in ast.walk(n) if isinstance(x, ast.Constant) and isinstance(x.value, str))
            elif isinstance(n, ast.Dict):
                self.tested.update(x.value for x in n.keys if isinstance(x, ast.Constant) and isinstance(x.value, str))
        for n in ast.walk(tree):
            if isinstance(n, ast.Compare) and isinstance(n.ops[0], (ast.In, ast.NotIn)):
                if isinstance(n.comparators[0], (ast.Attribute, ast.Name)):
                    wide.add(id(n.comparators[0]))
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'peek':
                wide.update(map(id, n.args))
        iterated = self.iterates_actions(tree)
        for n in ast.walk(tree):
            if id(n) in docs or id(n) in deco or id(n) in skip:
                continue
            if isinstance(n, ast.Constant) and isinstance(n.value, str):
                self.strings.add(n.value)
            elif isinstance(n, ast.Attribute):
                act = L.action(module, n)
                if act is not None:
                    (self.prefix if id(n) in wide else self.exact).add(act.name)
                    for x in ast.walk(n):
                        if x is not n:
                            skip.add(id(x))
                    continue
                if n.attr == 'obj':
                    self.ctx_any = True
                if isinstance(n.value, ast.Name) and f is not None and f.params() and n.value.id == f.params()[0] and cls is not None:
                    self.member(cls, n.attr, iterated)
                elif isinstance(n.value, ast.Call) and isinstance(n.value.func, ast.Name) and n.value.func.id == 'super' and cls is not None:
                    self.member(cls, n.attr, iterated)
                elif isinstance(n.value, ast.Name):
                    r = self.m.resolve_expr(module, n.value)
                    if isinstance(r, Class):
                        self.member(r, n.attr, iterated)
                elif isinstance(n.value, ast.Attribute) and isinstance(n.value.value, ast.Name) and self.home is not cls:
                    self.member(self.home, n.attr, iterated)    # self.transform.xxx
            elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
                r = self.m.resolve_expr(module, n)
                if isinstance(r, Func):
                    self.func(r, None)
                elif isinstance(r, Class):
                    self.klass(r)

    def iterates_actions(self, tree):
        """Names of loop variables running over an action and its ancestors."""
        out = set()
        for n in ast.walk(tree):
            if isinstance(n, (ast.For, ast.comprehension)) and isinstance(n.iter, ast.Attribute) and n.iter.attr == 'action':
                out.add(True)
        return bool(out)

    def klass(self, c):
        """A class that reads items itself: it has dispatchers."""
        if not any(isinstance(e, ast.Call) and ast.unparse(e.func).split('.')[-1] == 'Dispatcher'
                   for k in c.mro() if not isinstance(k, str) for e in k.assigns.values()):
            return
        self.classes.add(c)     # its handlers are looked at by themselves

    def member(self, cls, name, iterated):
        r = cls.lookup(name)
        if not r:
            return
        owner, kind, val = r
        if kind == 'method':
            if any(isinstance(d, ast.Name) and d.id == 'Dispatcher' for d in val.node.decorator_list):
                self.tok_any = True
                self.registry(cls, name, iterated)
            self.func(val, cls)
        elif kind == 'assign' and ('table', owner, name) not in self.done:
            self.done.add(('table', owner, name))
            if isinstance(val, ast.Call) and isinstance(val.func, ast.Name) and val.func.id == 'Dispatcher':
                self.registry(cls, name, iterated)
            else:
                self.node(val, owner.module, None, None)

    def knows(self, tok, texts):
        a = Act(tok.action)
        if a.name in self.exact or any(p in self.prefix for p in a.parents()):
            return True
        if texts is not None and texts and all(t in self.tested for t in texts):
            return True
        return False


def finite(p):
    """The texts a simple pattern can match, or None."""
    import re
    try:
        import re._parser as sp
    except ImportError:     # pragma: no cover
        import sre_parse as sp
    import re._constants as sc

    def seq(items):
        out = ['']
        for op, av in items:
            if op is sc.LITERAL:
                new = [chr(av)]
            elif op is sc.IN:
                new = []
                for o, a in av:
                    if o is sc.LITERAL:
                        new.append(chr(a))
                    elif o is sc.RANGE and a[1] - a[0] < 40:
                        new.extend(chr(x) for x in range(a[0], a[1] + 1))
                    else:
                        return None
            elif op is sc.BRANCH:
                new = []
                for b in av[1]:
                    x = seq(b)
                    if x is None:
                        return None
                    new.extend(x)
            elif op is sc.SUBPATTERN:
                new = seq(av[3])
            elif op is sc.MAX_REPEAT and av[1] is not sc.MAXREPEAT and av[1] <= 2:
                x = seq(av[2])
                if x is None:
                    return None
                new = []
                for n in range(av[0], av[1] + 1):
                    cur = ['']
                    for _ in range(n):
                        cur = [a + b for a in cur for b in x]
                    new.extend(cur)
            elif op in (sc.AT, sc.ASSERT, sc.ASSERT_NOT):
                new = ['']
            else:
                return None
            if new is None:
                return None
            out = [a + b for a in out for b in new]
            if len(out) > 500:
                return None
        return out
    try:
        r = seq(sp.parse(p) if isinstance(p, str) else p)
    except re.error:
        return None
    return None if r is None else sorted(set(r))


def group_texts(p, n):
    """The texts group n (1 based) of a pattern can match, or None."""
    import re._parser as sp
    import re._constants as sc

    def find(items):
        for op, av in items:
            if op is sc.SUBPATTERN:
                if av[0] == n:
                    return av[3]
                r = find(av[3])
                if r is not None:
                    return r
            elif op is sc.BRANCH:
                for b in av[1]:
                    r = find(b)
                    if r is not None:
                        return r
            elif op in (sc.MAX_REPEAT, sc.MIN_REPEAT):
                r = find(av[2])
                if r is not None:
                    return r
        return None
    try:
        s = find(sp.parse(p))
    except Exception:
        return None
    if s is None:
        return None
    return finite(s)


def texts_of(tok):
    """The texts a token can have, or None."""
    p = tok.rule.pattern
    if isinstance(p, ast.Constant) and isinstance(p.value, str):
        p = p.value
    if not isinstance(p, str):
        return None
    if len(tok.rule.alts[0]) > 1 or tok.pos:
        r = group_texts(p, tok.pos + 1)
        if r is not None:
            return r
    return finite(p) if tok.pos == 0 else None


def L_is_action(key):
    return key[:1].isupper() and all(x[:1].isupper() and x.isidentifier() for x in key.split('.'))


def dispatched(L, cls):
    """All (dispatcher, key) of a class."""
    out = set()
    for f, d in registered(cls):
        if isinstance(d, ast.Call) and isinstance(d.func, ast.Name):
            for a in d.args:
                act = None if isinstance(a, ast.Constant) else L.action(f.module, a)
                out.add((d.func.id, act.name if act is not None else getattr(a, 'value', None)))
    return out


def builds(L, cls, action, texts):
    """Whether the builder has a handler for tokens."""
    t = {k for n, k in dispatched(L, cls) if n != '_context'}
    return any(p in t for p in Act(action).parents()) or bool(texts) and all(x in t for x in texts)


def words_of(m, tok):
    """The texts a token can have, as far as they are written down in the rule."""
    if tok.texts:
        src, op, node, f = tok.texts
        try:
            v = m.literal(f.module, node)
        except Exception:
            return None
        v = [v] if isinstance(v, str) else v
        if not isinstance(v, (list, tuple, set, frozenset, dict)) or not all(isinstance(x, str) for x in v):
            return None
        if src == 'TEXT':
            return sorted(v)
        if src == 'MATCH[2]':       # the name after a backslash
            return sorted('\\' + x for x in v)
        return None
    return texts_of(tok)


def table_keys(m, L, cls, name):
    """The keys of a class level table: actions or texts; None if not understood."""
    r = cls.lookup(name)
    if not r or r[1] != 'assign':
        return None
    owner, _, e = r
    if isinstance(e, ast.Dict):
        out = set()
        for k in e.keys:
            act = L.action(owner.module, k) if k is not None else None
            if act is not None:
                out.add(act.name)
            elif isinstance(k, ast.Constant):
                out.add(k.value)
            else:
                return None
        return out
    if isinstance(e, ast.Call) and ast.unparse(e.func).split('.')[-1] == 'head_mapping':
        out = set()
        for x in e.args:
            k = m.resolve_expr(owner.module, x)
            if not isinstance(k, Class):
                return None
            mapping = k.lookup('mapping')
            head = k.lookup('head')
            try:
                if mapping and mapping[1] == 'assign':
                    v = m.literal(mapping[0].module, mapping[2])
                    out.update(v)
                else:
                    out.add(m.literal(head[0].module, head[2]))
            except Exception:
                return None
        return out
    return None


def tables(c, m, L, R, cls, contexts):
    """Tables indexed by the action or text of a token in a registered handler."""
    disp = {}       # dispatcher -> {key: Func}
    for f, d in registered(cls):
        if isinstance(d, ast.Call) and isinstance(d.func, ast.Name):
            for a in d.args:
                key = a.value if isinstance(a, ast.Constant) else L.action(f.module, a)
                key = key.name if isinstance(key, Act) else key
                t = disp.setdefault(d.func.id, {})
                if key in t and t[key].cls is f.cls:
                    c.ob('unique', '{}: {} {}'.format(cls.name, d.func.id, key), False, 'two handlers for the same key', f.where)
                t[key] = f
                now = cls.lookup(f.name)
                c.ob('unique', '{}: {}'.format(cls.name, f.name), f.cls is not cls or now and now[2] is f,
                     'the handler is hidden by a later definition of the same name', f.where)
    live = {p for x in R for tk in R[x][1] for p in Act(tk.action).parents()}
    for n, t in sorted(disp.items()):
        for key, f in sorted(t.items(), key=lambda x: str(x[0])):
            if n == '_context':
                c.ob('live', '{}: context {}'.format(cls.name, key), any(y.name == key for x in contexts for y in R[x][0]),
                     'a music event handler for a context that never occurs in music', f.where)
            elif isinstance(key, str) and L_is_action(key):
                c.ob('live', '{}: {}'.format(cls.name, key), key in live,
                     'a handler for tokens that no lexicon delivers', f.where)
    text_keys = {k for n, t in disp.items() if n != '_context' for k in t if k not in {p for x in R for tk in R[x][1] for p in Act(tk.action).parents()}}
    by = {}
    for x in contexts:
        for tk in R[x][1]:
            if tk.edge == 'head':
                continue
            for p in Act(tk.action).parents():
                h = disp.get('_action', {}).get(p)
                if h:
                    by.setdefault(h, []).append(tk)
                    break
    for f, toks in sorted(by.items(), key=lambda x: x[0].qualname):
        tests = {}
        for n in ast.walk(f.node):
            if isinstance(n, ast.Compare) and isinstance(n.left, ast.Attribute) and n.left.attr in ('action', 'text'):
                for x in n.comparators:
                    for y in x.elts if isinstance(x, (ast.Tuple, ast.List, ast.Set)) else (x,):
                        act = L.action(f.module, y)
                        if act is not None:
                            tests[act.name] = True
                        elif isinstance(y, ast.Constant):
                            tests[y.value] = True
        for n in ast.walk(f.node):
            if not (isinstance(n, ast.Subscript) and isinstance(n.value, ast.Attribute) and isinstance(n.value.value, ast.Name)
                    and isinstance(n.slice, ast.Attribute) and n.slice.attr in ('action', 'text')):
                continue
            keys = table_keys(m, L, cls, n.value.attr)
            if keys is None:
                continue
            con = '{}: {}'.format(f.qualname, n.value.attr)
            for tk in {t.action: t for t in toks}.values() if n.slice.attr == 'action' else toks:
                if n.slice.attr == 'action':
                    c.ob('table', con + ': ' + tk.action, tk.action in keys or tk.action in tests,
                         'no entry for tokens of this kind ({})'.format(tk.where), f.where)
                elif tk.action not in tests:
                    for w in words_of(m, tk) or ():
                        c.ob('table', '{}: {}: {}'.format(cls.name, tk.action, w), w in keys or w in tests or w in text_keys,
                             'no entry for this text ({}) in {}'.format(tk.where, n.value.attr), f.where)


# contexts where the handler keeps tokens it does not know as they are
KEEPS = {
    'Html.processing_instruction': 'unknown tokens become Text',
    'Html.attrs': 'invalid characters are no part of an attribute',
    'LilyPond.chord_modifier': 'the alteration is taken together with the step before it',
    'LilyPond.script': 'all tokens are the head of the articulation',
}


def durable(m, cls, f):
    """The element type with a duration a context handler returns, if any."""
    base = m.cls('dom.lily.Durable')
    rets = [n.value for n in ast.walk(f.node) if isinstance(n, ast.Return) and n.value is not None]
    local = {}
    for n in ast.walk(f.node):
        if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
            local[n.targets[0].id] = n.value
    for e in rets:
        if isinstance(e, ast.Name):
            e = local.get(e.id, e)
        if isinstance(e, ast.Call):
            for x in [e.func] + e.args[:1]:
                if isinstance(x, (ast.Name, ast.Attribute)):
                    k = m.resolve_expr(f.module, x)
                    if isinstance(k, Class) and k.issub(base):
                        return k
    return None


def containers(m, cls, f, depth=0):
    """Whether a context handler can return several objects instead of an element."""
    if f.is_generator:
        return True
    local = {}
    for n in ast.walk(f.node):
        if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
            local.setdefault(n.targets[0].id, []).append(n.value)

    def many(e, depth):
        if depth > 6:
            return False
        if isinstance(e, (ast.List, ast.Tuple, ast.ListComp, ast.GeneratorExp)):
            return True
        if isinstance(e, ast.IfExp):
            return many(e.body, depth + 1) or many(e.orelse, depth + 1)
        if isinstance(e, ast.BinOp):
            return many(e.left, depth + 1) or many(e.right, depth + 1)
        if isinstance(e, ast.Name):
            return any(many(x, depth + 1) for x in local.get(e.id, ()))
        if isinstance(e, ast.Call):
            if isinstance(e.func, ast.Name) and e.func.id in ('list', 'tuple'):
                return True
            if isinstance(e.func, ast.Attribute) and isinstance(e.func.value, ast.Name) and e.func.value.id == f.params()[0]:
                r = cls.lookup(e.func.attr)
                return bool(r and r[1] == 'method' and depth < 4 and containers(m, cls, r[2], depth + 1))
        return False
    return any(many(n.value, depth) for n in ast.walk(f.node) if isinstance(n, ast.Return) and n.value is not None)


def unrestricted(H, f, cls):
    """Whether a handler uses the results of contexts without asking for their names."""
    from .X02 import allowed
    I, r = H.run(f, cls)
    found = False
    items = {o.args[0] for e in r.events for a in e.args for t in terms(a) for o in subterms(t) if o.op == 'attr' and o.args[1] == 'obj'}
    for e in r.events:
        if e.kind in ('getitem', 'loop_var'):
            continue
        if e.kind in ('mutate', 'yield') and any(t in items and allowed(e.facts, mk('attr', t, 'name')) is None
                                                  for a in e.args[1:] or e.args for t in terms(a)):
            return True     # the item as a whole is kept
        peek = any(v and callee(k, 'peek') for k, v in e.facts.items())
        for o in {o for a in e.args for t in terms(a) for o in subterms(t) if o.op == 'attr' and o.args[1] == 'obj'}:
            found = True
            if not peek and allowed(e.facts, mk('attr', o.args[0], 'name')) is None:
                return True
    return not found


def callee(k, name):
    return any(t.op == 'call' and callee_name(t.args[0]) == name and any(is_const(a) and isinstance(a.args[0], str) for a in t.args[1]) for t in subterms(k))


def terms(a):
    if hasattr(a, 'op'):
        yield a
    elif isinstance(a, (tuple, list)):
        for x in a:
            yield from terms(x)


def reachable(m):
    """(Lexicons, closure, {language: transform}, documented): the lexicons reachable in the languages."""
    L = Lexicons(m)
    trans = {}
    for lang, tr in LANGS:
        trans[m.cls(lang)] = m.cls(lang.rpartition('.')[0] + '.' + tr)
    docs = {lc: ast.get_docstring(tc.node) or '' for lc, tc in trans.items()}

    def documented(x):
        return '``{}``'.format(x.name) in docs[x.cls]
    R = L.closure([Lex(lc, 'root') for lc in trans], lambda x: x.cls in trans and not documented(x))
    return L, R, trans, documented


def music_contexts(m, L, R, trans):
    """The lexicons whose handler passes the items to a builder."""
    out = []
    for x in sorted(R, key=repr):
        if x.cls in trans and (R[x][0] or R[x][1]):
            h = trans[x.cls].lookup(x.name)
            if h and h[1] == 'method':
                M = Mentions(m, L, trans[x.cls])
                M.func(h[2], trans[x.cls])
                if M.classes:
                    out.append(x)
    return out


def check(c):
    m = c.model
    H = Handlers(m)
    L, R, trans, documented = reachable(m)
    for w in L.unknown:
        c.unknown('context', w, 'rules not understood')
    c.unit('lexicons', len(R))
    music = []
    for x in sorted(R, key=repr):
        if x.cls not in trans or not (R[x][0] or R[x][1]):
            continue
        tc = trans[x.cls]
        con = '{}.{}'.format(x.cls.name, x.name)
        h = tc.lookup(x.name)
        if h is None:
            c.ob('context', con, False, 'no handler for the context in ' + tc.name, tc.where)
            continue
        owner, kind, f = h
        if kind == 'assign' and isinstance(f, ast.Constant) and f.value is None:
            c.ob('context', con, documented(x), 'the context is dropped without being documented as not transformed', tc.where)
            continue
        if kind != 'method':
            c.unknown('context', con, 'handler is not a method', tc.where)
            continue
        c.ob('context', con, True, '', f.where)
        M = Mentions(m, L, tc)
        M.func(f, tc)
        kids, toks = R[x]
        if M.classes:
            music.append(x)
        todo = {}
        for t in toks:
            todo.setdefault((t.action, t.edge), []).append(t)
        for (action, edge), ts in sorted(todo.items()):
            if edge == 'head' or con in KEEPS or x.cls.name == 'Latex':
                continue
            tt = [texts_of(t) for t in ts]
            texts = None if None in tt else [y for z in tt for y in z]
            if M.classes and not edge:
                rule = 'event'
                ok = any(builds(L, b, action, texts) for b in M.classes)
            else:
                rule = 'token'
                ok = M.knows(ts[0], texts) or M.tok_any or not (M.exact or M.prefix) or edge and bool(M.classes) and any(
                    builds(L, b, action, texts) for b in M.classes)
            c.ob(rule, '{}: {}'.format(con, action), bool(ok), 'nothing in the handler of the context knows tokens of this kind ({})'.format(ts[0].where), f.where)
        for y in sorted(kids, key=repr):
            if y.cls not in trans or documented(y):
                continue
            h2 = trans[y.cls].lookup(y.name)
            if h2 is None or h2[1] != 'method' or y is x:
                continue
            if M.classes:
                ok = any(('_context', y.name) in dispatched(L, b) for b in M.classes) or not containers(m, trans[y.cls], h2[2])
                c.ob('event', '{}: {}'.format(con, y.name), ok or y.name in M.strings,
                     'no music event handler for results of this context', f.where)
                if not any(('_context', y.name) in dispatched(L, b) for b in M.classes):
                    k = durable(m, trans[y.cls], h2[2])
                    c.ob('event', '{}: {}: duration'.format(con, y.name), k is None,
                         'no music event handler for results of this context, so a {} never gets its duration and articulations'.format(k and k.name), f.where)
                continue
            ok = y.name in M.strings or M.ctx_any and unrestricted(H, f, tc) and not containers(m, trans[y.cls], h2[2])
            c.ob('result', '{}: {}'.format(con, y.name), ok, 'nothing in the handler of the context knows results of this context', f.where)
    tables(c, m, L, R, m.cls('lang.lilypond.MusicBuilder'), music)
    tables(c, m, L, R, m.cls('lang.lilypond.LilyPondTransform'), [])
    c.floor('context', 50)
    c.floor('token', 500)
