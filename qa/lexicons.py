"""Static analysis of parce lexicon definitions.

Collects the rules a lexicon yields (directly, through helper class methods and
through other lexicons), the standard actions they can assign and the lexicons
they push or pop, and from that which contexts and tokens can be the items of a
context.  Nothing is executed: the rules are read from the syntax trees.
"""
import ast

from .model import *

RULE_ITEMS = {'bygroup', 'findmember', 'ifmember', 'dselect', 'select', 'ifgroup', 'ifarg', 'ifeq', 'using', 'call', 'words',
              'pattern', 'arg', 'anyof', 'derive', 'gselect'}
LIMIT = 4000


class Lex:
    """A lexicon as seen from a language class."""
    __slots__ = ('cls', 'name')
    _all = {}

    def __new__(cls, lang, name):
        k = (lang, name)
        if k not in cls._all:
            o = object.__new__(cls)
            o.cls, o.name = lang, name
            cls._all[k] = o
        return cls._all[k]

    def __repr__(self):
        return '{}.{}'.format(self.cls.name, self.name)


class Tok:
    """A token kind: its action with the texts it is limited to (None: open)."""
    __slots__ = ('action', 'texts', 'rule', 'where', 'edge', 'pos')

    def __init__(self, action, texts=None, rule=None, where='', edge='', pos=0):
        self.action, self.texts, self.rule, self.where, self.edge, self.pos = action, texts, rule, where, edge, pos

    def __repr__(self):
        return '<{}>'.format(self.action)


class Rule:
    __slots__ = ('pattern', 'alts', 'where', 'module')

    def __init__(self, pattern, alts, where, module):
        self.pattern, self.alts, self.where, self.module = pattern, alts, where, module


class Opaque:
    def __repr__(self):
        return '?'


OPAQUE = Opaque()


def is_lexicon(f):
    return isinstance(f, Func) and any('lexicon' in ast.unparse(d).split('(')[0].split('.')[-1:] for d in f.node.decorator_list)


def consumes(f):
    for d in f.node.decorator_list:
        if isinstance(d, ast.Call):
            for k in d.keywords:
                if k.arg == 'consume' and isinstance(k.value, ast.Constant) and k.value.value:
                    return True
    return False


class Act:
    __slots__ = ('name',)
    _all = {}

    def __new__(cls, name):
        if name not in cls._all:
            o = object.__new__(cls)
            o.name = name
            cls._all[name] = o
        return cls._all[name]

    def __repr__(self):
        return self.name

    def parents(self):
        p = self.name.split('.')
        return ['.'.join(p[:i]) for i in range(len(p), 0, -1)]


class Seq(list):
    """Consecutive items of one alternative."""


class Lexicons:
    def __init__(self, model):
        self.m = model
        self._rules = {}
        self._actmod = model.module('parce.action')
        if self._actmod is None:
            raise AnalysisBroken('parce.action not found')
        self.unknown = []

    # ---- actions
    def action(self, module, expr):
        """The action an expression denotes, or None."""
        names = []
        e = expr
        while isinstance(e, ast.Attribute):
            names.append(e.attr)
            e = e.value
        if not isinstance(e, ast.Name):
            return None
        names.append(e.id)
        names.reverse()
        r = self._root_action(module, names)
        return r

    def _root_action(self, module, names, depth=0):
        if depth > 12:
            return None
        name = names[0]
        if module is self._actmod:
            if name in module.assigns:
                x = module.assigns[name][-1][0]
                if isinstance(x, ast.Call) and x.args and isinstance(x.args[0], ast.Constant):
                    return Act('.'.join([x.args[0].value] + names[1:]))
                if isinstance(x, (ast.Name, ast.Attribute)):
                    b = self.action(module, x)
                    return Act('.'.join([b.name] + names[1:])) if b else None
            return None
        if name in module.assigns:
            x = module.assigns[name][-1][0]
            if isinstance(x, (ast.Name, ast.Attribute)):
                b = self.action(module, x)
                return Act('.'.join([b.name] + names[1:])) if b else None
            return None
        if name in module.imports:
            imp = module.imports[name]
            if imp[0] == 'module':
                mod = self.m.module(imp[1])
                return self._root_action(mod, names[1:], depth + 1) if mod is self._actmod and len(names) > 1 else None
            base = self.m.module(imp[1])
            if base is not None and base.has_name(imp[2]):
                return self._root_action(base, [imp[2]] + names[1:], depth + 1)
            sub = self.m.module('{}.{}'.format(imp[1], imp[2]))
            if sub is self._actmod and len(names) > 1:
                return self._root_action(sub, names[1:], depth + 1)
        return None

    # ---- rules of a lexicon
    def rules(self, lex):
        if lex not in self._rules:
            self._rules[lex] = []
            hit = lex.cls.lookup(lex.name)
            if not hit or hit[1] != 'method':
                raise AnalysisBroken('lexicon {} not found'.format(lex))
            self._rules[lex] = list(self._body(hit[2], lex.cls, {}, 0))
        return self._rules[lex]

    def consume(self, lex):
        hit = lex.cls.lookup(lex.name)
        return consumes(hit[2])

    def _body(self, f, cls, env, depth):
        """Yield the rules a lexicon or helper method yields."""
        if depth > 25:
            raise AnalysisBroken('lexicon helpers nested too deeply at {}'.format(f.qualname))
        env = dict(env)
        yield from self._stmts(f.node.body, f, cls, env, depth)

    def _stmts(self, body, f, cls, env, depth):
        for s in body:
            if isinstance(s, ast.Expr):
                v = s.value
                if isinstance(v, ast.Yield) and v.value is not None:
                    elts = v.value.elts if isinstance(v.value, ast.Tuple) else [v.value]
                    yield from self._rule(elts, f, cls, env, depth)
                elif isinstance(v, ast.YieldFrom):
                    yield from self._from(v.value, f, cls, env, depth)
            elif isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name):
                env[s.targets[0].id] = ('expr', s.value, f, cls, dict(env))
            elif isinstance(s, ast.If):
                t = self._truth(s.test, env)
                if t is not False:
                    yield from self._stmts(s.body, f, cls, dict(env) if t is None else env, depth)
                if t is not True:
                    yield from self._stmts(s.orelse, f, cls, dict(env) if t is None else env, depth)
            elif isinstance(s, (ast.For, ast.While)):
                yield from self._stmts(s.body, f, cls, env, depth)
            elif isinstance(s, ast.With):
                yield from self._stmts(s.body, f, cls, env, depth)
            elif isinstance(s, ast.ImportFrom):
                for n in s.names:
                    env[n.asname or n.name] = ('import', self._import(f.module, s, n.name))
            elif isinstance(s, ast.Import):
                for n in s.names:
                    env[n.asname or n.name.split('.')[0]] = ('import', self.m.module(n.name if n.asname else n.name.split('.')[0]))

    def _import(self, module, s, name):
        base = module._from_base(s)
        bm = self.m.module(base)
        if bm is not None:
            r = self.m.resolve_name(bm, name)
            if r is not None and not (isinstance(r, tuple) and r[0] == 'builtin'):
                return r
        return self.m.module('{}.{}'.format(base, name))

    def _truth(self, test, env):
        if isinstance(test, ast.Name) and test.id in env and env[test.id][0] == 'val':
            v = env[test.id][1]
            return bool(v)
        if isinstance(test, ast.Compare) and isinstance(test.left, ast.Name) and env.get(test.left.id, ('',))[0] == 'val' \
                and len(test.ops) == 1 and isinstance(test.comparators[0], ast.Constant):
            v, k = env[test.left.id][1], test.comparators[0].value
            if isinstance(test.ops[0], ast.Is):
                return v is None if k is None else None
            if isinstance(test.ops[0], ast.Eq) and isinstance(v, (int, str)):
                return v == k
            if isinstance(test.ops[0], ast.Eq):
                return False
        return None

    def _lang(self, e, f, cls, env):
        """(language class, after) when e denotes a language class."""
        if isinstance(e, ast.Name):
            p = f.params()
            if p and e.id == p[0]:
                return cls, None
            if e.id in env and env[e.id][0] == 'import' and isinstance(env[e.id][1], Class):
                return env[e.id][1], None
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == 'super':
            after = f.cls
            if e.args:
                after = self.m.resolve_expr(f.module, e.args[0])
            return cls, after
        if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name) and e.value.id in env and env[e.value.id][0] == 'import':
            b = env[e.value.id][1]
            r = self.m.resolve_attr(b, e.attr) if b is not None else None
            if isinstance(r, Class):
                return r, None
        r = self.m.resolve_expr(f.module, e) if isinstance(e, (ast.Name, ast.Attribute)) else None
        if isinstance(r, Class):
            return r, None
        return None

    def _member(self, e, f, cls, env):
        """(language, Func) for an attribute of a language class."""
        if not isinstance(e, ast.Attribute):
            return None
        lang = self._lang(e.value, f, cls, env)
        if lang is None:
            return None
        hit = lang[0].lookup(e.attr, after=lang[1])
        if hit and hit[1] == 'method':
            return lang[0], hit[2]
        return None

    def _from(self, e, f, cls, env, depth):
        call = None
        if isinstance(e, ast.Subscript):
            e = e.value
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ('list', 'tuple', 'iter') and e.args:
            e = e.args[0]
        if isinstance(e, ast.Call):
            call, e = e, e.func
        mem = self._member(e, f, cls, env)
        if mem is None:
            self.unknown.append('{}:{}'.format(f.module.relpath, getattr(e, 'lineno', 0)))
            return
        lang, g = mem
        if is_lexicon(g):
            yield from self._body(g, lang, {}, depth + 1)
        else:
            yield from self._body(g, lang, self._bind(g, call, f, cls, env), depth + 1)

    def _bind(self, g, call, f, cls, env):
        a = g.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        static = any(isinstance(d, ast.Name) and d.id == 'staticmethod' for d in g.node.decorator_list)
        if not static:
            pos = pos[1:]
        out = {}
        for p, d in zip(reversed(a.posonlyargs + a.args), reversed(a.defaults)):
            out[p.arg] = self._value(d, f, cls, env)
        for p, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None:
                out[p.arg] = self._value(d, f, cls, env)
        vals = []
        for x in (call.args if call else ()):
            if isinstance(x, ast.Starred):
                v = self._value(x.value, f, cls, env)
                vals.extend(v[1] if v[0] == 'val' and isinstance(v[1], list) else [v])
            else:
                vals.append(self._value(x, f, cls, env))
        for i, v in enumerate(vals):
            if i < len(pos):
                out[pos[i]] = v
        if a.vararg:
            out[a.vararg.arg] = ('val', vals[len(pos):])
        for k in (call.keywords if call else ()):
            if k.arg:
                out[k.arg] = self._value(k.value, f, cls, env)
        return out

    def _value(self, e, f, cls, env):
        if isinstance(e, ast.Constant):
            return ('val', e.value)
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.USub) and isinstance(e.operand, ast.Constant):
            return ('val', -e.operand.value)
        if isinstance(e, ast.Name) and e.id in env:
            return env[e.id]
        return ('expr', e, f, cls, dict(env))

    def _rule(self, elts, f, cls, env, depth):
        where = '{}:{}'.format(f.module.relpath, elts[0].lineno)
        if len(elts) == 1:
            e = elts[0]
            if isinstance(e, ast.Name) and e.id == 'SKIP_WHITESPACE' or not isinstance(e, (ast.Constant,)):
                # a complete rule kept in a name
                r = self.m.resolve_expr(f.module, e) if isinstance(e, (ast.Name, ast.Attribute)) else None
                if isinstance(r, tuple) and r[0] == 'expr' and isinstance(r[2], ast.Tuple):
                    yield Rule(r[2].elts[0], [Seq(self._flat(r[2].elts[1:], f, cls, {}))], where, r[1])
                    return
            return
        pat = elts[0]
        alts = [Seq()]
        if isinstance(pat, ast.Name) and pat.id in ('default_action', 'default_target'):
            pat = pat.id
        for e in elts[1:]:
            alts = self._product(alts, self._item(e, f, cls, env, depth), where)
        if pat == 'default_target':
            alts = [Seq([None] + list(a)) for a in alts]
        yield Rule(pat, alts, where, f.module)

    def _flat(self, elts, f, cls, env):
        out = []
        for e in elts:
            for a in self._item(e, f, cls, env, 0):
                out.extend(a)
        return out

    def _product(self, a, b, where):
        if len(a) * len(b) > LIMIT:
            raise AnalysisBroken('too many alternatives for the rule at {}'.format(where))
        out, seen = [], set()
        for x in a:
            for y in b:
                s = Seq(list(x) + list(y))
                k = tuple(id(i) if not isinstance(i, (int, tuple, type(None))) else i for i in s)
                if k not in seen:
                    seen.add(k)
                    out.append(s)
        return out

    def _val_item(self, v):
        """Alternatives for an environment value."""
        if v[0] == 'expr':
            return self._item(v[1], v[2], v[3], v[4], 1)
        if v[0] == 'val':
            x = v[1]
            if isinstance(x, list):
                out = [Seq()]
                for y in x:
                    out = self._product(out, self._val_item(y), '')
                return out
            return [Seq([x])]
        if v[0] == 'import' and isinstance(v[1], Lex):
            return [Seq([v[1]])]
        return [Seq([OPAQUE])]

    def _item(self, e, f, cls, env, depth):
        """Alternatives (lists of leaves) for a rule item.

        Leaves are Act, Lex, int, None, ('texts', node, Func, leaf) or OPAQUE."""
        if depth > 40:
            raise AnalysisBroken('rule item nested too deeply in {}'.format(f.qualname))
        item = lambda x: self._item(x, f, cls, env, depth + 1)
        if isinstance(e, ast.Constant):
            return [Seq([e.value])] if not isinstance(e.value, str) else [Seq([OPAQUE])]
        if isinstance(e, ast.UnaryOp) and isinstance(e.operand, ast.Constant) and isinstance(e.op, ast.USub):
            return [Seq([-e.operand.value])]
        if isinstance(e, ast.Starred):
            return item(e.value)
        if isinstance(e, (ast.Tuple, ast.List)):
            out = [Seq()]
            for x in e.elts:
                out = self._product(out, item(x), f.qualname)
            return out
        if isinstance(e, ast.IfExp):
            return item(e.body) + item(e.orelse)
        if isinstance(e, ast.Name):
            if e.id in env:
                return self._val_item(env[e.id])
            if e.id == 'skip':
                return [Seq([None])]
            a = self.action(f.module, e)
            return [Seq([a])] if a else [Seq([OPAQUE])]
        if isinstance(e, ast.Attribute):
            mem = self._member(e, f, cls, env)
            if mem is not None and is_lexicon(mem[1]):
                return [Seq([Lex(mem[0], mem[1].name)])]
            a = self.action(f.module, e)
            return [Seq([a])] if a else [Seq([OPAQUE])]
        if isinstance(e, ast.Call):
            return self._call(e, f, cls, env, depth)
        return [Seq([OPAQUE])]

    def _texts(self, alts, src, op, node, f, cls, env):
        """Mark the first action of every alternative with the texts it is limited to."""
        out = []
        for a in alts:
            out.append(Seq(('texts', src, op, node, f, x) if i == 0 and isinstance(x, Act) else x for i, x in enumerate(a)))
        return out

    def _call(self, e, f, cls, env, depth):
        item = lambda x: self._item(x, f, cls, env, depth + 1)
        fn = e.func
        name = fn.id if isinstance(fn, ast.Name) else fn.attr if isinstance(fn, ast.Attribute) else None
        mem = self._member(fn, f, cls, env)
        if mem is not None:
            lang, g = mem
            if is_lexicon(g):
                return [Seq([Lex(lang, g.name)])]
            env2 = self._bind(g, e, f, cls, env)
            return self._returns(g, lang, env2, depth + 1)
        if isinstance(fn, ast.Name) and fn.id in env:
            v = env[fn.id]
            if v[0] == 'expr' and isinstance(v[1], ast.Lambda):
                la = v[1]
                env2 = dict(v[4])
                for p, x in zip(la.args.args, e.args):
                    env2[p.arg] = self._value(x, f, cls, env)
                return self._item(la.body, v[2], v[3], env2, depth + 1)
            if v[0] == 'expr' and v[1] is not e:
                # a derived lexicon handed in as argument
                r = self._val_item(v)
                if all(len(a) == 1 and isinstance(a[0], Lex) for a in r):
                    return r
            return [Seq([OPAQUE])]
        if name == 'bygroup':
            out = [Seq()]
            for x in e.args:
                out = self._product(out, item(x), f.qualname)
            return out
        if name == 'using':
            r = item(e.args[0])
            out = []
            for a in r:
                for x in a:
                    if isinstance(x, Lex):
                        for act in self.token_actions(x):
                            out.append(Seq([act]))
            return out or [Seq([OPAQUE])]
        if name in ('findmember', 'ifmember', 'dselect', 'ifgroup', 'ifarg', 'ifeq', 'select', 'gselect'):
            out = []
            args = e.args
            if name == 'findmember':
                pairs = args[1].elts if isinstance(args[1], (ast.Tuple, ast.List)) else ()
                for p in pairs:
                    if isinstance(p, ast.Tuple) and len(p.elts) == 2:
                        out += self._texts(item(p.elts[1]), ast.unparse(args[0]), 'in', p.elts[0], f, cls, env)
                out += item(args[2]) if len(args) > 2 else [Seq()]
            elif name == 'ifmember':
                out += self._texts(item(args[2]), ast.unparse(args[0]), 'in', args[1], f, cls, env)
                out += item(args[3]) if len(args) > 3 else [Seq()]
            elif name == 'dselect':
                d = args[1]
                if isinstance(d, ast.Dict):
                    for k, v in zip(d.keys, d.values):
                        out += self._texts(item(v), ast.unparse(args[0]), 'eq', k, f, cls, env)
                else:
                    out.append(Seq([OPAQUE]))
                out += item(args[2]) if len(args) > 2 else [Seq()]
            elif name in ('ifgroup', 'ifarg'):
                out += item(args[1])
                out += item(args[2]) if len(args) > 2 else [Seq()]
            elif name == 'ifeq':
                out += item(args[2])
                out += item(args[3]) if len(args) > 3 else [Seq()]
            else:
                for x in args[1:]:
                    out += item(x)
            return out
        return [Seq([OPAQUE])]

    def _returns(self, g, lang, env, depth):
        out = []
        env = dict(env)

        def walk(body):
            for s in body:
                if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name):
                    env[s.targets[0].id] = ('expr', s.value, g, lang, dict(env))
                elif isinstance(s, ast.ImportFrom):
                    for n in s.names:
                        env[n.asname or n.name] = ('import', self._import(g.module, s, n.name))
                elif isinstance(s, ast.If):
                    t = self._truth(s.test, env)
                    if t is not False:
                        if walk(s.body) and t is True:
                            return True
                    if t is not True:
                        walk(s.orelse)
                elif isinstance(s, ast.Try):
                    walk(s.body)
                    for h in s.handlers:
                        walk(h.body)
                elif isinstance(s, ast.Return):
                    if s.value is not None:
                        out.extend(self._item(s.value, g, lang, env, depth + 1))
                    return True
            return False
        walk(g.node.body)
        return out or [Seq([OPAQUE])]

    # ---- what a rule does
    @staticmethod
    def split(alt):
        """(actions, targets) of an alternative; actions may carry texts."""
        acts, targets = [], []
        for x in alt:
            if isinstance(x, Lex) or isinstance(x, int) and not isinstance(x, bool):
                targets.append(x)
            elif isinstance(x, Act) or isinstance(x, tuple) and x and x[0] == 'texts':
                acts.append(x)
        return acts, targets

    def token_actions(self, lex):
        out = []
        for r in self.rules(lex):
            for alt in r.alts:
                for x in self.split(alt)[0]:
                    x = x[5] if isinstance(x, tuple) else x
                    if x not in out:
                        out.append(x)
        return out

    def closure(self, roots, expand=lambda lex: True):
        """Reachable lexicons with their items.

        Returns {lex: (set of child lexicons, list of Tok)}; the children and
        tokens of a lexicon are those that become items of its context."""
        parents = {}
        todo = list(roots)
        seen = set(roots)
        effects = []        # (lex, acts, targets, rule)
        while todo:
            x = todo.pop()
            if not expand(x):
                continue
            for r in self.rules(x):
                for alt in r.alts:
                    acts, targets = self.split(alt)
                    effects.append((x, acts, targets, r))
                    for t in targets:
                        if isinstance(t, Lex) and t not in seen:
                            seen.add(t)
                            todo.append(t)
        par = {x: set() for x in seen}
        kids = {x: set() for x in seen}
        toks = {x: {} for x in seen}

        def up(x, n):
            cur = {x}
            for _ in range(n):
                cur = set().union(*(par[c] for c in cur)) if cur else set()
            return cur
        changed = True
        while changed:
            changed = False
            for x, acts, targets, r in effects:
                cur = {x}
                for t in targets:
                    if isinstance(t, Lex):
                        for p in cur:
                            if p not in par[t]:
                                par[t].add(p)
                                changed = True
                        cur = {t}
                    elif t < 0:
                        nxt = set()
                        for c in cur:
                            nxt |= up(c, -t)
                        cur = nxt
        for x, acts, targets, r in effects:
            if acts:
                last = next((t for t in reversed(targets) if isinstance(t, Lex)), None)
                if last is not None and self.consume(last):
                    home = {last}
                else:
                    home = {x}
                pops = any(not isinstance(t, Lex) and t < 0 for t in targets)
                for h in home:
                    edge = 'head' if h is last and last is not None else 'tail' if pops and last is None else ''
                    for i, a in enumerate(acts):
                        name = a[5].name if isinstance(a, tuple) else a.name
                        key = (name, (a[1], ast.dump(a[3])) if isinstance(a, tuple) else r.pattern if isinstance(r.pattern, str) else id(r.pattern),
                               edge, i)
                        if key not in toks[h]:
                            toks[h][key] = Tok(name, a[1:5] if isinstance(a, tuple) else None, r, r.where, edge, i)
        # a lexicon without items never creates a context
        real = {x for x in seen if toks[x]}
        changed = True
        while changed:
            changed = False
            for x in seen:
                if x in real:
                    for p in par[x]:
                        if p not in real:
                            real.add(p)
                            changed = True
        for x in seen:
            if x in real:
                for p in par[x]:
                    kids[p].add(x)
        return {x: (kids[x], list(toks[x].values())) for x in seen if x in real or x in roots}
