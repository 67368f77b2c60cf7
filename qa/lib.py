"""Helpers shared by the checks."""
import ast

from .model import *
from .gvf import *


def under(t, facts, depth=0):
    """Resolve the gates of t that the facts decide."""
    if isinstance(facts, State):
        s = facts
    else:
        s = State()
        s.facts = facts
    while t.op == 'ite' and depth < 50:
        q = s.query(t.args[0])
        if q is None:
            a = under(t.args[1], s, depth + 1)
            b = under(t.args[2], s, depth + 1)
            return ite(t.args[0], a, b)
        t = t.args[1] if q else t.args[2]
    if t.op not in ('const', 'new', 'tuple') and s.query(is_none(t)) is True:
        return NONE
    return t


NOISE = ('ok', 'has', 'more', 'brk', 'has_next')


def real_facts(facts, drop=()):
    """Facts that restrict when something happens, without those about failures."""
    return {f: v for f, v in facts.items() if f.op not in NOISE and f not in drop
            and not (f.op == 'cmp' and f.args[0] == 'is' and f.args[2] is NONE
                     and facts.get(truth(f.args[1])) is True)}


def mu_next(interp, t, depth=0):
    """Value of a loop variable after an iteration."""
    while t.op == 'mu' and t in interp.mu and depth < 5:
        t = interp.mu[t][1]
        depth += 1
    return t


def param(name):
    return mk('param', name)


def own_func_nodes(model):
    """Yield (Func, ast node list) of all own functions, nested ones folded in."""
    for f in model.all_funcs():
        yield f


def isinst(x, *classes):
    return mk('isinstance', x, tuple(classes))


def calls_to(events, name):
    """Call events whose callee has the given last name."""
    for e in events:
        if e.kind == 'call' and callee_name(e.args[0]) == name:
            yield e


def callee_name(fn):
    if fn.op == 'attr':
        return fn.args[1]
    if fn.op in ('bound', 'func'):
        return fn.args[0].name
    if fn.op == 'cls':
        return fn.args[0].name
    if fn.op == 'bound_builtin':
        return fn.args[1]
    if fn.op in ('builtin', 'ext'):
        return fn.args[0].split('.')[-1]
    if fn.op == 'closure':
        return fn.args[0].name
    if fn.op == 'global':
        return fn.args[1]
    return None


def callee_base(fn):
    if fn.op == 'attr':
        return fn.args[0]
    if fn.op == 'bound':
        return fn.args[1]
    if fn.op == 'bound_builtin':
        return fn.args[2]
    return None


_linkname = {}


def link_name(m):
    """The attribute in which a node keeps its parent reference."""
    if m in _linkname:
        return _linkname[m]
    node = m.cls('node.Node')
    p = node.lookup('parent')
    if not p or p[1] != 'method':
        raise AnalysisBroken('Node.parent not found')
    r = Interp(m).run(p[2], cls=node)
    name = None
    for x in subterms(r.value):
        if x.op == 'attr' and x.args[0].op == 'param':
            name = x.args[1]
    if name is None:
        raise AnalysisBroken('parent link attribute not found')
    _linkname[m] = name
    return name


def node_interp(m, **kw):
    """An interpreter that knows that the parent of a node is a node (or None)."""
    node = m.cls('node.Node')
    link = link_name(m)
    user = kw.pop('on_call', None)

    def on_call(I, st, fn, args, kws, nd):
        if fn.op == 'attr' and fn.args[1] == link and not args:
            t = mk('call', fn, (), (), 0)
            I.types[t] = node
            return t
        if fn.op == 'weakref' and not args:
            return fn.args[0]
        return user(I, st, fn, args, kws, nd) if user else None
    I = Interp(m, on_call=on_call, **kw)
    I.duck['parent'] = node
    return I


def contents(t, heap, depth=0, facts=None):
    """Segments of an iterable term: ('one'|'each'|'some', term, literals)."""
    if facts is not None and depth == 0:
        st = State()
        st.facts = facts
        out = []
        for k, x, lits in _contents(t, heap, 0):
            if any(st.query(c) is (not p) for c, p in lits):
                continue
            lits = tuple((c, p) for c, p in lits if st.query(c) is not p)
            if k == 'some' and not lits and x is not t:
                out.extend(contents(x, heap, 0, facts) if x.op in ('new', 'tuple', 'seq') else [(k, x, lits)])
            elif k == 'each' and not lits and x.op == 'elem' and x.args[1] == '':
                out.extend(contents(x.args[0], heap, 0, facts))
            else:
                out.append((k, x, lits))
        return out
    return _contents(t, heap, depth)


def _contents(t, heap, depth):
    if depth > 6:
        return [('some', t, ())]
    if t.op == 'tuple':
        return [('one', x, ()) for x in t.args]
    if t.op == 'tupleof':
        return contents(t.args[0], heap, depth + 1)
    if t.op == 'seq':
        out = []
        for x in t.args[1:]:
            out.extend(contents(x.args[0], heap, depth + 1) if x.op == 'star' else [('one', x, ())])
        return out
    if t.op == 'star':
        return contents(t.args[0], heap, depth + 1)
    s = heap.get((t, '[]'))
    if t.op == 'new' and s is not None:
        out = []
        for k, x, lits in s:
            if k == 'some' and not lits:
                out.extend(contents(x, heap, depth + 1))
            elif k == 'each' and x.op == 'elem' and x.args[1] == '' and not lits:
                out.extend(contents(x.args[0], heap, depth + 1))
            else:
                out.append((k, x, lits))
        return out
    return [('some', t, ())]


def listed(t, heap, depth=0):
    """The iterable of which t is an item, looking through copies in new lists."""
    for _ in range(6):
        if t.op in ('elem', 'each', 'from', 'iter', 'tupleof', 'next') and isinstance(t.args[0], T):
            t = t.args[0]
        elif t.op == 'new' and len(contents(t, heap)) == 1 and not contents(t, heap)[0][2]:
            x = contents(t, heap)[0][1]
            if x is t:
                break
            t = x
        else:
            break
    return t


def known(*facts):
    """Literals that follow from facts (dicts or lists of pairs), by unit propagation."""
    out = {}
    clauses = []
    todo = []
    for fs in facts:
        todo.extend(fs.items() if isinstance(fs, dict) else fs)
    changed = True
    while changed:
        while todo:
            k, v = todo.pop()
            k, p = lit(k)
            v = v if p else not v
            if k in out:
                continue
            out[k] = v
            if k.op == 'and':
                if v:
                    todo.extend((x, True) for x in k.args)
                else:
                    clauses.append(k)
            elif k.op == 'ite':
                clauses.append(k)
        changed = False
        for k in clauses:
            def val(x):
                x, p = lit(x)
                w = out.get(x)
                return w if p or w is None else not w
            if k.op == 'and':
                open_ = [x for x in k.args if val(x) is not True]
                if len(open_) == 1 and val(open_[0]) is None:
                    todo.append((open_[0], False))
                    changed = True
            else:
                g = val(k.args[0])
                if g is not None:
                    x = k.args[1] if g else k.args[2]
                    if is_bool(x) and not is_const(x) and val(x) is None:
                        todo.append((x, out[k]))
                        changed = True
    return out


def consistent(*facts):
    """False when the facts contradict each other by propositional evaluation."""
    k = known(*facts)

    def val(x, depth=0):
        x, p = lit(x)
        v = k.get(x)
        if v is None and depth < 12:
            if x.op == 'and':
                vs = [val(y, depth + 1) for y in x.args]
                v = False if False in vs else True if all(y is True for y in vs) else None
            elif x.op == 'ite':
                g = val(x.args[0], depth + 1)
                a, b = (val(y, depth + 1) for y in x.args[1:])
                v = a if g is True else b if g is False else a if a == b else None
            elif x.op == 'const':
                v = bool(x.args[0])
        return v if p or v is None else not v
    for fs in facts:
        for q, v in fs.items() if isinstance(fs, dict) else fs:
            q, p = lit(q)
            if q in k and k[q] is not (v if p else not v):
                return False
    for q, v in k.items():
        if q.op == 'and':
            vs = [val(y) for y in q.args]
            w = False if False in vs else True if all(y is True for y in vs) else None
        elif q.op == 'ite':
            g = val(q.args[0])
            a, b = (val(y) for y in q.args[1:])
            w = a if g is True else b if g is False else a if a == b else None
        else:
            continue
        if w is not None and w is not v:
            return False
    return True
