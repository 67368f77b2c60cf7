"""Guarded value flow over the program model.

An abstract interpreter that gives every expression a hash-consed term (gated
SSA / global value numbering), keeps the dominating conditions ("facts"), joins
states at merges with gated phi terms, inlines resolvable calls and generators,
and records the events (calls, stores, mutations, yields) that happen together
with the facts in force.  Loops are widened to `mu` terms.  Paths are not
enumerated, and no solver is involved.
"""
import ast
import itertools

from .model import Class, Func, Module, BUILTIN_TYPES, AnalysisBroken

# ------------------------------------------------------------------ terms


class T:
    __slots__ = ('op', 'args', 'id', '_men')
    table = {}

    def __repr__(self):
        return show(self)


def mk(op, *args):
    key = (op,) + tuple((type(a), a) if not isinstance(a, T) else a.id for a in args)
    t = T.table.get(key)
    if t is None:
        t = T()
        t.op = op
        t.args = args
        t.id = len(T.table)
        t._men = None
        T.table[key] = t
    return t


def const(v):
    return mk('const', v)


NONE = const(None)
TRUE = const(True)
FALSE = const(False)
UNBOUND = mk('unbound')
ZERO = const(0)
SELF = mk('param', 'self')


def is_const(t):
    return t.op == 'const'


def atoms(t):
    """The set of leaf-ish subterms (memoised ids of all subterms)."""
    if t._men is None:
        s = {t.id}
        for a in t.args:
            if isinstance(a, T):
                s |= atoms(a)
            elif isinstance(a, tuple):
                for b in a:
                    if isinstance(b, T):
                        s |= atoms(b)
                    elif isinstance(b, tuple):
                        for c in b:
                            if isinstance(c, T):
                                s |= atoms(c)
        t._men = frozenset(s)
    return t._men


def mentions(t, sub):
    return sub.id in atoms(t)


def subterms(t, seen=None):
    """Yield t and all terms in it, each once."""
    seen = set() if seen is None else seen
    stack = [t]
    while stack:
        x = stack.pop()
        if not isinstance(x, T):
            if isinstance(x, tuple):
                stack.extend(x)
            continue
        if x.id in seen:
            continue
        seen.add(x.id)
        yield x
        stack.extend(x.args)


def show(t, depth=0):
    if not isinstance(t, T):
        if isinstance(t, tuple):
            return '(' + ', '.join(show(x, depth + 1) for x in t) + ')'
        if isinstance(t, (Class, Func, Module)):
            return getattr(t, 'name', str(t))
        return str(t)
    if depth > 7:
        return '…'
    a = t.args
    s = lambda x: show(x, depth + 1)
    if t.op == 'const':
        return repr(a[0])
    if t.op in ('param', 'sym'):
        return str(a[0])
    if t.op == 'attr':
        return '{}.{}'.format(s(a[0]), a[1])
    if t.op in ('cls', 'func', 'mod'):
        return a[0].name
    if t.op == 'builtin':
        return a[0]
    if t.op == 'new':
        return 'new {}#{}'.format(s(a[0]), a[1])
    if t.op == 'call':
        return '{}({})'.format(s(a[0]), ', '.join(
            [s(x) for x in a[1]] + ['{}={}'.format(k, s(v)) for k, v in a[2]]))
    if t.op == 'not':
        return 'not {}'.format(s(a[0]))
    if t.op == 'ite':
        return '({} ? {} : {})'.format(s(a[0]), s(a[1]), s(a[2]))
    if t.op == 'bin':
        return '({} {} {})'.format(s(a[1]), a[0], s(a[2]))
    if t.op == 'cmp':
        return '({} {} {})'.format(s(a[1]), a[0], s(a[2]))
    if t.op == 'item':
        return '{}[{}]'.format(s(a[0]), s(a[1]))
    if t.op == 'elem':
        return 'each({})'.format(s(a[0]))
    if t.op == 'mu':
        return 'mu:{}'.format(a[1])
    return '{}<{}>'.format(t.op, ', '.join(s(x) for x in a))


def neg(t):
    if t.op == 'not':
        return t.args[0]
    if t is TRUE:
        return FALSE
    if t is FALSE:
        return TRUE
    return mk('not', t)


_fresh = itertools.count()

BOOLOPS = ('cmp', 'not', 'and', 'or', 'isinstance', 'issubclass', 'has', 'truth', 'ok',
           'more', 'brk', 'choice', 'callable')


def is_bool(t):
    return t.op in BOOLOPS or (t.op == 'const' and isinstance(t.args[0], bool)) \
        or (t.op == 'ite' and is_bool(t.args[1]) and is_bool(t.args[2]))


def lit(t):
    """(positive term, polarity)"""
    pol = True
    while t.op == 'not':
        t = t.args[0]
        pol = not pol
    return t, pol


def mk_and(a, b):
    if a is TRUE:
        return b
    if b is TRUE:
        return a
    if a is FALSE or b is FALSE:
        return FALSE
    if a is b:
        return a
    return mk('and', a, b)


def mk_or(a, b):
    return neg(mk_and(neg(a), neg(b)))


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if c.op == 'not':
        return ite(c.args[0], b, a)
    if a is c and is_bool(c):
        a = TRUE
    if b is c and is_bool(c):
        b = FALSE
    if a is TRUE and b is FALSE and is_bool(c):
        return c
    if a is FALSE and b is TRUE and is_bool(c):
        return neg(c)
    if is_bool(a) and is_bool(b) and is_bool(c):
        # boolean combination
        if b is FALSE:
            return mk_and(c, a)
        if a is TRUE:
            return mk_or(c, b)
        if a is FALSE:
            return mk_and(neg(c), b)
        if b is TRUE:
            return mk_or(neg(c), a)
    # prune nested gates on the same condition
    a = assume(a, c, True)
    b = assume(b, c, False)
    if a is b:
        return a
    return mk('ite', c, a, b)


def assume(t, c, pol):
    """Simplify the top gates of t given c == pol."""
    while t.op == 'ite':
        if t.args[0] is c:
            t = t.args[1] if pol else t.args[2]
        else:
            break
    return t


def leaves(t):
    """All alternatives of a gated term with their gate literals."""
    out = []

    def rec(x, lits):
        if x.op == 'ite':
            rec(x.args[1], lits + ((x.args[0], True),))
            rec(x.args[2], lits + ((x.args[0], False),))
        elif x.op == 'phi':
            for y in x.args[0]:
                rec(y, lits)
        else:
            out.append((x, lits))
    rec(t, ())
    return out


# ------------------------------------------------------------------ state

def fold(e):
    """Value of a constant integer expression, or None."""
    if isinstance(e, ast.Constant):
        return e.value if isinstance(e.value, int) else None
    if isinstance(e, ast.UnaryOp):
        v = fold(e.operand)
        if v is None:
            return None
        return {ast.USub: lambda: -v, ast.Invert: lambda: ~v, ast.UAdd: lambda: v}.get(type(e.op), lambda: None)()
    if isinstance(e, ast.BinOp):
        a, b = fold(e.left), fold(e.right)
        if a is None or b is None:
            return None
        try:
            return {ast.Add: lambda: a + b, ast.Sub: lambda: a - b, ast.Mult: lambda: a * b, ast.BitOr: lambda: a | b,
                    ast.BitAnd: lambda: a & b, ast.BitXor: lambda: a ^ b, ast.FloorDiv: lambda: a // b, ast.Mod: lambda: a % b,
                    ast.LShift: lambda: a << b if b < 64 else None, ast.RShift: lambda: a >> b,
                    ast.Pow: lambda: a ** b if 0 <= b < 64 else None}.get(type(e.op), lambda: None)()
        except (ArithmeticError, ValueError):
            return None
    return None


class Heap(dict):
    """A heap that can remember everything that was ever stored in it."""
    __slots__ = ()
    log = None

    def __setitem__(self, k, v):
        if Heap.log is not None:
            Heap.log.setdefault(k, set()).add(v)
        dict.__setitem__(self, k, v)


class State:
    __slots__ = ('frames', 'heap', 'facts', 'path', 'vers', 'dead', 'inexact')

    def __init__(self):
        self.frames = {}
        self.heap = Heap()
        self.facts = {}
        self.path = ()
        self.vers = {}
        self.dead = False
        self.inexact = False

    def fork(self):
        s = State()
        s.frames = dict(self.frames)
        s.heap = Heap(self.heap)
        s.facts = dict(self.facts)
        s.path = self.path
        s.vers = dict(self.vers)
        s.dead = self.dead
        s.inexact = self.inexact
        return s

    def become(self, o):
        self.frames = o.frames
        self.heap = o.heap
        self.facts = o.facts
        self.path = o.path
        self.vers = o.vers
        self.dead = o.dead
        self.inexact = o.inexact

    def setvar(self, fid, name, v):
        f = dict(self.frames.get(fid, ()))
        f[name] = v
        self.frames[fid] = f

    def know(self, c, pol):
        c, p = lit(c)
        if not p:
            pol = not pol
        stack = [(c, pol)]
        while stack:
            c, pol = stack.pop()
            c, p = lit(c)
            if not p:
                pol = not pol
            if is_const(c):
                continue
            if self.facts.get(c) is pol:
                continue
            self.facts[c] = pol
            if c.op == 'and':
                if pol:
                    stack.append((c.args[0], True))
                    stack.append((c.args[1], True))
                else:
                    # one true -> the other false
                    for x, y in (c.args, c.args[::-1]):
                        if self.query(x) is True:
                            stack.append((y, False))
            elif c.op == 'truth' and pol:
                stack.append((mk('cmp', 'is', c.args[0], NONE), False))
            elif c.op == 'ite' and is_bool(c):
                if self.query(c.args[0]) is not None:
                    stack.append((c.args[1] if self.query(c.args[0]) else c.args[2], pol))

    def object_truth(self, t, cls):
        """The truth of an object of an own class, None if not known."""
        m = cls.lookup('__bool__')
        if m:
            if m[1] == 'method':
                body = [x for x in m[2].node.body if not isinstance(x, ast.Expr)]
                if len(body) == 1 and isinstance(body[0], ast.Return) and isinstance(body[0].value, ast.Constant):
                    return bool(body[0].value.value)
            return None
        m = cls.lookup('__len__')
        if not m:
            return True if cls.module.own and not cls.issub('list') else None
        if m[1] == 'builtin' and cls.issub('list'):
            segs = self.heap.get((t, '[]'))
            if segs is not None and exact(segs):
                return bool(segs)
        return None

    def query(self, c, depth=0):
        """True, False or None."""
        c, p = lit(c)
        r = self._query(c, depth)
        if r is None and State.oracle is not None:
            r = State.oracle(c)
        return r if p or r is None else (not r)

    oracle = None       # a function that decides conditions nothing is known about

    def _query(self, c, depth):
        if is_const(c):
            return bool(c.args[0])
        r = self.facts.get(c)
        if r is not None:
            return r
        if depth > 6:
            return None
        if c.op == 'and':
            a = self.query(c.args[0], depth + 1)
            if a is False:
                return False
            b = self.query(c.args[1], depth + 1)
            if b is False:
                return False
            if a and b:
                return True
            # a known-false conjunction with the same parts
            return None
        if c.op == 'ite' and is_bool(c):
            g = self.query(c.args[0], depth + 1)
            if g is not None:
                return self.query(c.args[1] if g else c.args[2], depth + 1)
            x, y = self.query(c.args[1], depth + 1), self.query(c.args[2], depth + 1)
            if x is not None and x == y:
                return x
            return None
        if c.op == 'truth':
            t = c.args[0]
            if t.op == 'new' and t.args[0].op == 'cls':
                r = self.object_truth(t, t.args[0].args[0])
                if r is not None:
                    return r
            if t.op == 'new' and t.args[0].op == 'builtin' and exact(self.heap.get((t, '[]'), NOSEGS)):
                return bool(self.heap[t, '[]'])
            if t.op == 'ite':
                g = self.query(t.args[0], depth + 1)
                if g is not None:
                    return self.query(truth(t.args[1] if g else t.args[2]), depth + 1)
                x, y = self.query(truth(t.args[1]), depth + 1), self.query(truth(t.args[2]), depth + 1)
                if x is not None and x == y:
                    return x
            if self.facts.get(mk('cmp', 'is', t, NONE)) is True:
                return False
        if c.op == 'isinstance' and isinstance(c.args[1], tuple):
            x = c.args[0]
            for f, v in self.facts.items():
                if f.op == 'isinstance' and f.args[0] is x and isinstance(f.args[1], tuple):
                    if v:
                        # x is one of f's classes; all of them subclasses of ours?
                        if f.args[1] and all(any(_issub(k, w) for w in c.args[1]) for k in f.args[1]):
                            return True
                    else:
                        if c.args[1] and all(any(_issub(k, w) for w in f.args[1]) for k in c.args[1]):
                            return False
            if self.facts.get(mk('cmp', 'is', x, NONE)) is True:
                return False
        if c.op == 'cmp':
            if c.args[0] == 'is' and c.args[2] is NONE:
                if self.facts.get(truth(c.args[1])) is True:
                    return False
                t = c.args[1]
                if t.op == 'ite':
                    g = self.query(t.args[0], depth + 1)
                    if g is not None:
                        return self.query(is_none(t.args[1] if g else t.args[2]), depth + 1)
                for f, v in self.facts.items():
                    if v and f.op == 'isinstance' and f.args[0] is c.args[1]:
                        return False
            if c.args[0] == '<':
                # a < b known, ask b < a
                if self.facts.get(mk('cmp', '<', c.args[2], c.args[1])) is True:
                    return False
                if self.facts.get(mk('cmp', '==', c.args[1], c.args[2])) is True \
                        or self.facts.get(mk('cmp', '==', c.args[2], c.args[1])) is True:
                    return False
                # constant bounds: x < k
                r = _bound_query(self.facts, c)
                if r is not None:
                    return r
            if c.args[0] == '==':
                if is_const(c.args[2]):
                    for f, v in self.facts.items():
                        if v and f.op == 'cmp' and f.args[0] == '==' and f.args[1] is c.args[1] \
                                and is_const(f.args[2]) and f.args[2].args[0] != c.args[2].args[0]:
                            return False
        return None


def _num(t):
    return is_const(t) and type(t.args[0]) in (int, float)


def _bound_query(facts, c):
    a, b = c.args[1], c.args[2]
    if _num(b):
        x, k = a, b.args[0]          # x < k ?
        for f, v in facts.items():
            if f.op != 'cmp' or f.args[0] not in ('<', '=='):
                continue
            if f.args[0] == '==':
                if v and f.args[1] is x and _num(f.args[2]):
                    return f.args[2].args[0] < k
                continue
            if f.args[1] is x and _num(f.args[2]):
                if v and f.args[2].args[0] <= k:
                    return True
                if not v and f.args[2].args[0] >= k:
                    return False
            if f.args[2] is x and _num(f.args[1]) and v and f.args[1].args[0] >= k - 1 \
                    and type(k) is int and x.op == 'len':
                return False
            if f.args[2] is x and _num(f.args[1]) and v and f.args[1].args[0] >= k:
                return False
            if f.args[2] is x and _num(f.args[1]) and not v and f.args[1].args[0] < k:
                return True
        if x.op == 'len' and k <= 0:
            return False
    if _num(a):
        x, k = b, a.args[0]          # k < x ?
        for f, v in facts.items():
            if f.op != 'cmp' or f.args[0] not in ('<', '=='):
                continue
            if f.args[0] == '==':
                if v and f.args[1] is x and _num(f.args[2]):
                    return k < f.args[2].args[0]
                continue
            if f.args[2] is x and _num(f.args[1]):
                if v and f.args[1].args[0] >= k:
                    return True
                if not v and f.args[1].args[0] <= k:
                    return False
            if f.args[1] is x and _num(f.args[2]):
                if not v and f.args[2].args[0] > k:
                    return True
                if v and f.args[2].args[0] <= k + (1 if x.op == 'len' else 0):
                    return False
        if x.op == 'len' and k < 0:
            return True
    return None


def _issub(a, b):
    if a is b or a == b:
        return True
    if isinstance(a, Class):
        return b in a.mro()
    if isinstance(a, str) and isinstance(b, str):
        while a in BUILTIN_TYPES and BUILTIN_TYPES[a]:
            a = BUILTIN_TYPES[a][0]
            if a == b:
                return True
    return False


def truth(t):
    if is_bool(t):
        return t
    if is_const(t):
        return TRUE if t.args[0] else FALSE
    if t.op == 'tuple':
        return TRUE if t.args else FALSE
    if t.op in ('cls', 'func', 'bound', 'closure', 'mod', 'gen', 'fmt') and t.op != 'fmt':
        return TRUE
    if t.op == 'len':
        return mk('cmp', '<', ZERO, t)
    if t.op == 'ite':
        return ite(t.args[0], truth(t.args[1]), truth(t.args[2]))
    return mk('truth', t)


def is_none(t):
    if is_const(t):
        return TRUE if t.args[0] is None else FALSE
    if t.op in ('tuple', 'new', 'cls', 'func', 'bound', 'closure', 'mod', 'gen', 'len', 'bin',
                'fmt', 'slice', 'list') or is_bool(t) or t is SELF:
        return FALSE
    if t.op == 'ite':
        return ite(t.args[0], is_none(t.args[1]), is_none(t.args[2]))
    if t.op == 'call' and t.args[0].op == 'attr' and 'limit_denominator' in t.args[0].args:
        return FALSE    # of a fraction, always a fraction
    return mk('cmp', 'is', t, NONE)


class Event:
    __slots__ = ('kind', 'args', 'facts', 'loops', 'stack', 'node', 'module', 'func', 'state', 'seq', 'ver')

    def __init__(self, kind, args, st, interp, node):
        self.kind = kind
        self.args = args
        self.facts = dict(st.facts)
        self.loops = tuple(interp.loops)
        self.stack = tuple(interp.stack)
        self.node = node
        self.func = interp.stack[-1] if interp.stack else None
        self.module = self.func.module if self.func else None
        self.state = None
        self.seq = 0

    def known(self, c):
        s = State()
        s.facts = self.facts
        return s.query(c)

    @property
    def where(self):
        if self.func is None:
            return '?'
        return '{}:{} ({})'.format(self.module.relpath, getattr(self.node, 'lineno', '?'),
                                   self.func.qualname)

    def __repr__(self):
        return '{}({})'.format(self.kind, ', '.join(show(a) for a in self.args))


class Result:
    def __init__(self):
        self.returns = []       # (state, value)
        self.raises = []        # (state, exc term)
        self.value = None       # merged
        self.state = None       # merged
        self.events = []
        self.yields = []
        self.interp = None


class Ctx:
    """A control context that collects exits."""
    def __init__(self, kind, **kw):
        self.kind = kind
        self.breaks = []
        self.continues = []
        self.returns = []
        self.raises = []
        self.__dict__.update(kw)

    def lists(self):
        return (self.breaks, self.continues, self.returns, self.raises)


class Budget(Exception):
    pass


MUTATORS = frozenset('append extend insert remove pop clear add discard update sort reverse '
                     'setdefault popitem appendleft popleft extendleft rotate take '
                     '__setitem__ __delitem__'.split())

PURE_STR = frozenset('endswith startswith strip lstrip rstrip lower upper partition rpartition isdigit isalpha '
                     'isspace replace title capitalize removeprefix removesuffix count find index'.split())

PURE_BUILTINS = frozenset('len isinstance issubclass str repr int float bool abs min max sum any all '
                          'sorted tuple list dict set frozenset type divmod round ord chr hash id '
                          'callable range enumerate zip map filter reversed iter slice format '
                          'getattr hasattr bytes'.split())


NOSEGS = (('some', None, ()),)


def exact(segs):
    """Whether the items of a list are all known one by one."""
    return all(s[0] == 'one' and not s[-1] for s in segs)


def position(segs, t):
    """The position of a new object in a list of different new objects, None if not known."""
    if t.op == 'new' and exact(segs) and all(s[1].op == 'new' for s in segs):
        for i, s in enumerate(segs):
            if s[1] is t:
                return i


class Interp:
    def __init__(self, model, max_depth=14, max_steps=60000, inline=None, types=None,
                 opaque=(), on_call=None, track_raises=True, inline_unknown=None,
                 unroll=8, trace_states=False):
        self.model = model
        self.max_depth = max_depth
        self.max_steps = max_steps
        self.steps = 0
        self.inline = inline            # predicate(Func) -> bool
        self.types = dict(types or {})  # term -> Class (exact)
        self.opaque = set(opaque)       # names never inlined
        self.sent = None                # what is sent to the generator, if known
        self.became = {}                # announced new object -> the object its constructor gave
        self.on_call = on_call          # hook(interp, st, fterm, args, kw, node) -> term or None
        self.inline_unknown = inline_unknown    # hook(interp, st, base, name) -> Func/None
        self.track_raises = track_raises
        self.unroll = unroll
        self.trace_states = trace_states
        self.events = []
        self.stack = []
        self.sitestack = []
        self.ctxs = []
        self.loops = []
        self.fids = itertools.count(1)
        self.consuming = {}     # iterator -> [number of items taken], for loops that are busy
        self.made = {}          # comprehension -> what it puts in, in any state
        self.sites = {}
        self.first_site = 0
        self.mu = {}            # mu term -> (init, next)
        self.genenv = {}        # id -> info
        self.notes = []
        self.uninit = set()
        self.breakfacts = {}
        self.duck = {}          # attribute name -> Class assumed for unknown objects
        self._clscache = {}
        self.loopinfo = {}
        self.notefail = []

    # -------------------------------------------------------------- entry
    max_recursion = 1       # how often a function may be on the stack
    unroll_while = 0        # how often a while loop is run of which all tests are decided
    fresh_lists = False     # whether new objects of classes that inherit list start empty

    def run(self, func, self_term=None, args=(), kwargs=None, facts=(), heap=None, cls=None, frames=None):
        """Analyse func from an arbitrary state. Missing args become params."""
        st = State()
        if frames:
            # the variables of closures made before
            st.frames.update(frames)
            self.fids = itertools.count(max(frames) + 1)
        for c, pol in facts:
            st.know(c, pol)
        if heap:
            st.heap.update(heap)
        res = Result()
        top = Ctx('top')
        self.ctxs.append(top)
        try:
            if func.is_generator and not func.contextmanager:
                pre = self.bind_entry(func, self_term, args, kwargs, cls)
                ys = []

                def on_yield(st2, v, node):
                    e = self.event('yield', (v,), st2, node)
                    ys.append(e)
                    return self.sent if self.sent is not None else mk('sent', v, len([1 for x in self.stack]))
                self.run_gen_body(func, pre, st, on_yield)
                res.yields = ys
                if not st.dead:
                    res.returns = [(st, NONE)]
            else:
                pre = self.bind_entry(func, self_term, args, kwargs, cls)
                res.returns = self.run_body(func, pre, st)
        finally:
            self.ctxs.pop()
        res.raises = top.raises
        res.events = [e for e in self.events]
        res.yields = [e for e in res.events if e.kind == 'yield']
        if res.returns:
            m, v = self.merge_vals(res.returns)
            res.state, res.value = m, v
        res.interp = self
        return res

    def bind_entry(self, func, self_term, args, kwargs, cls=None):
        env = {}
        a = func.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        kwargs = dict(kwargs or {})
        pos = list(args)
        if func.kind in ('function', 'property') and func.cls is not None and func.outer is None:
            if names:
                s = self_term if self_term is not None else mk('param', names[0])
                env[names.pop(0)] = s
                if self_term is None and s not in self.types:
                    self.types[s] = cls or func.cls
        elif func.kind == 'classmethod' and names:
            env[names.pop(0)] = self_term if self_term is not None else mk('cls', cls or func.cls)
        for n in names:
            if pos:
                env[n] = pos.pop(0)
            elif n in kwargs:
                env[n] = kwargs.pop(n)
            else:
                env[n] = mk('param', n)
        if a.vararg:
            env[a.vararg.arg] = mk('tuple', *pos) if pos else mk('param', '*' + a.vararg.arg)
        for x in a.kwonlyargs:
            env[x.arg] = kwargs.pop(x.arg, None) or mk('param', x.arg)
        if a.kwarg:
            env[a.kwarg.arg] = mk('param', '**' + a.kwarg.arg)
        env['@func'] = mk('func', func)
        if func.cls is not None:
            env['@class'] = mk('cls', func.cls)
        return env

    # -------------------------------------------------------------- helpers
    def tick(self, n=1):
        self.steps += n
        if self.steps > self.max_steps:
            raise Budget()

    def event(self, kind, args, st, node):
        e = Event(kind, args, st, self, node)
        e.seq = len(self.events)
        e.ver = st.vers.get(args[0], 0) if args and isinstance(args[0], T) else 0
        if self.trace_states:
            e.state = st.fork()
        self.events.append(e)
        return e

    def site(self, node):
        """A number for an allocation site in its inlining context (and loop)."""
        key = (id(node), tuple(id(s) for s in self.stack), tuple(self.sitestack), tuple(self.loops))
        n = self.sites.get(key)
        if n is None:
            n = self.sites[key] = self.first_site + len(self.sites)
        return n

    def merge(self, states):
        states = [s for s in states if s is not None and not s.dead]
        if not states:
            return None
        if len(states) == 1:
            return states[0]
        return self._merge([(s, NONE) for s in states])[0]

    def merge_vals(self, pairs):
        pairs = [(s, v) for s, v in pairs if not s.dead]
        if not pairs:
            return None, None
        if len(pairs) == 1:
            return pairs[0]
        return self._merge(pairs)

    def _merge(self, pairs, depth=None):
        """Merge along the decision tree formed by the paths."""
        if len(pairs) == 1:
            return pairs[0]
        if depth is None:
            depth = 0
        paths = [s.path for s, v in pairs]
        # skip the common prefix
        d = depth
        while all(len(p) > d for p in paths) and len(set(p[d] for p in paths)) == 1:
            d += 1
        groups = {}
        rest = []
        cond = None
        for s, v in pairs:
            if len(s.path) > d:
                c = s.path[d][0]
                if cond is None:
                    cond = c
                if c is cond:
                    groups.setdefault(s.path[d][1], []).append((s, v))
                    continue
            rest.append((s, v))
        prefix = paths[0][:d]
        if not rest and set(groups) == {True, False}:
            a = self._merge(groups[True], d + 1)
            b = self._merge(groups[False], d + 1)
            return self._join(a, b, cond, prefix)
        # not a proper tree: nondeterministic choice
        if rest:
            # states whose path is exact can be told from all others by it
            exact = [x for g in groups.values() for x in g if not x[0].inexact]
            other = [x for g in groups.values() for x in g if x[0].inexact]
            if exact and len(exact) <= 6:
                r = self._merge_flat(rest + other, prefix)
                for x in exact:
                    c = TRUE
                    for lt, pol in x[0].path[d:]:
                        c = mk_and(c, lt if pol else neg(lt))
                    r = self._join(x, r, c, prefix, True)
                r[0].inexact = True
                return r
        allg = [self._merge(g, d + 1) for g in groups.values()] + \
               ([self._merge_flat(rest, prefix)] if rest else [])
        r = allg[0]
        for o in allg[1:]:
            r = self._join(r, o, None, prefix)
        return r

    def _merge_flat(self, pairs, prefix):
        r = pairs[0]
        for o in pairs[1:]:
            r = self._join(r, o, None, prefix)
        return r

    def _join(self, pa, pb, cond, prefix, exact=False):
        a, va = pa
        b, vb = pb

        def phi(x, y):
            if x is y:
                return x
            if cond is None:
                xs = x.args[0] if x.op == 'phi' else (x,)
                ys = y.args[0] if y.op == 'phi' else (y,)
                seen = []
                for z in xs + ys:
                    if z not in seen:
                        seen.append(z)
                return mk('phi', tuple(seen)) if len(seen) > 1 else seen[0]
            return ite(cond, x, y)
        s = State()
        s.path = prefix
        s.inexact = a.inexact or b.inexact or cond is None or not exact and (
            len(a.path) > len(prefix) + 1 or len(b.path) > len(prefix) + 1)
        for fid in set(a.frames) | set(b.frames):
            fa, fb = a.frames.get(fid), b.frames.get(fid)
            if fa is fb:
                s.frames[fid] = fa
                continue
            if fa is None or fb is None:
                s.frames[fid] = fa if fa is not None else fb
                continue
            f = {}
            for n in set(fa) | set(fb):
                f[n] = phi(fa.get(n, UNBOUND), fb.get(n, UNBOUND))
            s.frames[fid] = f
        for k in set(a.heap) | set(b.heap):
            x, y = a.heap.get(k), b.heap.get(k)
            if x is y:
                s.heap[k] = x
                continue
            if x is None:
                x = self.heap_default(k)
            if y is None:
                y = self.heap_default(k)
            if k[1] == '[]':
                if x == y:
                    s.heap[k] = x
                else:
                    s.heap[k] = self.join_segs(x, y, cond)
                continue
            s.heap[k] = phi(x, y)
        for f, v in a.facts.items():
            if b.facts.get(f) is v:
                s.facts[f] = v
        # implied facts: known in the one, derivable in the other
        for f, v in a.facts.items():
            if f not in s.facts and f.op in ('isinstance', 'cmp', 'truth') and b.query(f) is v:
                s.facts[f] = v
        for f, v in b.facts.items():
            if f not in s.facts and f.op in ('isinstance', 'cmp', 'truth') and a.query(f) is v:
                s.facts[f] = v
        for k in set(a.vers) | set(b.vers):
            x, y = a.vers.get(k, 0), b.vers.get(k, 0)
            s.vers[k] = x if x == y else max(x, y) + (0 if cond is None else 0)
            if x != y:
                s.vers[k] = max(x, y)
        return s, phi(va, vb)

    def heap_default(self, k):
        base, name = k
        if name == '[]':
            return ()
        if base.op == 'new':
            return UNBOUND
        return mk('attr', base, name)

    def join_segs(self, x, y, cond):
        """x, y: tuples of segments; keep common prefix, gate the rest."""
        i = 0
        while i < len(x) and i < len(y) and x[i] == y[i]:
            i += 1
        out = list(x[:i])
        ra, rb = x[i:], y[i:]
        c = cond if cond is not None else mk('choice', next(_fresh))
        for s in ra:
            out.append(s[:-1] + (s[-1] + ((c, True),),))
        for s in rb:
            out.append(s[:-1] + (s[-1] + ((c, False),),))
        return tuple(out)

    def branch(self, st, c):
        """Return (state_true, state_false); either may be None."""
        q = st.query(c)
        if q is True:
            return st, None
        if q is False:
            return None, st
        c, pol = lit(c)
        a = st.fork()
        b = st.fork()
        a.path = a.path + ((c, pol),)
        b.path = b.path + ((c, not pol),)
        a.know(c, pol)
        b.know(c, not pol)
        return a, b

    # ---- exceptions
    def may_raise(self, st, exc, okterm, node=None):
        """Register that exc may be raised here unless okterm holds."""
        for ctx in reversed(self.ctxs):
            if ctx.kind == 'try':
                if ctx.catches(exc):
                    break
                continue
            if ctx.kind == 'finally':
                break
            if ctx.kind == 'top':
                if not self.track_raises or exc in ('AttributeError', 'KeyError', 'IndexError', 'StopIteration'):
                    return
                break
        else:
            return
        q = st.query(okterm)
        if q is True:
            return
        if q is False:
            r = st.fork()
            ctx.raises.append((r, mk('exc', exc)))
            st.dead = True
            return
        r = st.fork()
        r.path = r.path + ((okterm, False),)
        r.know(okterm, False)
        ctx.raises.append((r, mk('exc', exc)))
        st.path = st.path + ((okterm, True),)
        st.know(okterm, True)

    def do_raise(self, st, exc):
        for ctx in reversed(self.ctxs):
            if ctx.kind == 'try' and ctx.catches(exc_name(exc)):
                break
            if ctx.kind in ('finally', 'top'):
                break
        else:
            st.dead = True
            return
        ctx.raises.append((st.fork(), exc))
        st.dead = True

    # -------------------------------------------------------------- functions
    def run_body(self, func, env, st):
        """Run a function body; returns list of (state, value)."""
        fid = next(self.fids)
        env = dict(env)
        env['@fid'] = fid
        st.frames[fid] = env
        ctx = Ctx('func', fid=fid)
        self.ctxs.append(ctx)
        self.stack.append(func)
        try:
            self.exec_block(func.body, st, fid)
        finally:
            self.stack.pop()
            self.ctxs.pop()
        rets = ctx.returns
        if not st.dead:
            rets = rets + [(st.fork(), NONE)]
        return rets

    def call_func(self, func, env, st, node, keep=False):
        plen = st.path
        self.sitestack.append(id(node))
        try:
            rets = self.run_body(func, env, st)
        finally:
            self.sitestack.pop()
        s, v = self.merge_vals(rets)
        if s is None:
            st.dead = True
            return UNBOUND
        if len(s.path) > len(plen) and s.path[:len(plen)] == plen and len(rets) > 1:
            pass
        st.become(s)
        return v

    def run_gen_body(self, func, env, st, on_yield):
        """Run a generator function body inline; on_yield(st, value, node) -> sent value."""
        fid = next(self.fids)
        env = dict(env)
        env['@fid'] = fid
        st.frames[fid] = env
        if self.stack and not getattr(on_yield, 'relay', False):
            # the consumer's code does not belong to the generator function
            consumer, inner = self.stack[-1], on_yield

            def on_yield(st2, v, node):
                self.stack.append(consumer)
                try:
                    return inner(st2, v, node)
                finally:
                    self.stack.pop()
        ctx = Ctx('func', fid=fid, on_yield=on_yield)
        self.ctxs.append(ctx)
        self.stack.append(func)
        try:
            self.exec_block(func.body, st, fid)
        finally:
            self.stack.pop()
            self.ctxs.pop()
        states = [s for s, v in ctx.returns]
        if not st.dead:
            states.append(st.fork())
        m = self.merge(states)
        if m is None:
            st.dead = True
        else:
            st.become(m)

    # -------------------------------------------------------------- statements
    def exec_block(self, stmts, st, fid):
        for s in stmts:
            if st.dead:
                return
            self.tick()
            m = getattr(self, 's_' + type(s).__name__, None)
            if m is None:
                self.notes.append('unsupported statement ' + type(s).__name__)
                continue
            m(s, st, fid)

    def s_Expr(self, s, st, fid):
        self.ev(s.value, st, fid)

    def s_Pass(self, s, st, fid):
        pass

    def s_Global(self, s, st, fid):
        f = dict(st.frames[fid])
        f['@global'] = tuple(f.get('@global', ())) + tuple(s.names)
        st.frames[fid] = f

    def s_Nonlocal(self, s, st, fid):
        f = dict(st.frames[fid])
        f['@nonlocal'] = tuple(f.get('@nonlocal', ())) + tuple(s.names)
        st.frames[fid] = f

    def s_Import(self, s, st, fid):
        for a in s.names:
            n = a.asname or a.name.split('.')[0]
            m = self.model.module(a.name if a.asname else n)
            st.setvar(fid, n, mk('mod', m) if m else mk('ext', a.name if a.asname else n))

    def s_ImportFrom(self, s, st, fid):
        mod = self.stack[-1].module
        base = mod._from_base(s)
        m = self.model.module(base)
        for a in s.names:
            v = None
            if m is not None:
                r = self.model.resolve_name(m, a.name) or self.model.module('{}.{}'.format(base, a.name))
                v = self.from_resolved(r)
            st.setvar(fid, a.asname or a.name, v or mk('ext', '{}.{}'.format(base, a.name)))

    def s_Assign(self, s, st, fid):
        v = self.ev(s.value, st, fid)
        for t in s.targets:
            if st.dead:
                return
            self.assign(t, v, st, fid)

    def s_AnnAssign(self, s, st, fid):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, st, fid), st, fid)

    def s_AugAssign(self, s, st, fid):
        op = BINOPS[type(s.op)]
        if isinstance(s.target, ast.Name):
            cur = self.ev(ast.copy_location(ast.Name(s.target.id, ast.Load()), s.target), st, fid)
            v = self.ev(s.value, st, fid)
            if st.dead:
                return
            self.aug(s.target, cur, op, v, st, fid, s)
        elif isinstance(s.target, ast.Attribute):
            base = self.ev(s.target.value, st, fid)
            if st.dead:
                return
            cur = self.getattr(base, s.target.attr, st, s)
            v = self.ev(s.value, st, fid)
            if st.dead:
                return
            r = self.binop(op, cur, v, st, s)
            if self.is_listy(cur, st) and op == '+':
                self.mutate(cur, 'extend', (v,), st, s)
                return
            self.setattr(base, s.target.attr, r, st, s, aug=(op, v))
        else:
            base = self.ev(s.target.value, st, fid)
            idx = self.ev(s.target.slice, st, fid)
            cur = self.getitem(base, idx, st, s)
            v = self.ev(s.value, st, fid)
            if not st.dead:
                self.setitem(base, idx, self.binop(op, cur, v, st, s), st, s)

    def aug(self, target, cur, op, v, st, fid, node):
        ty = self.typeof(cur, st)
        if isinstance(ty, Class):
            m = ty.lookup({'+': '__iadd__', '*': '__imul__', '-': '__isub__'}.get(op, '__none__'))
            if m and m[1] == 'method':
                r = self.call_method(m[2], cur, (v,), (), st, node)
                self.assign(target, r, st, fid)
                return
            if op == '+' and 'list' in ty.mro():
                self.mutate(cur, 'extend', (v,), st, node, raw=True)
                return
        if op == '+' and self.is_listy(cur, st):
            self.mutate(cur, 'extend', (v,), st, node)
            return
        self.assign(target, self.binop(op, cur, v, st, node), st, fid)

    def is_listy(self, t, st):
        return (t.op == 'new' and isinstance(t.args[0], T) and t.args[0].op == 'builtin'
                and t.args[0].args[0] in ('list', 'set', 'dict'))

    def assign(self, t, v, st, fid):
        if isinstance(t, ast.Name):
            f = st.frames[fid]
            if t.id in f.get('@nonlocal', ()):
                ofid = self.find_frame(st, f.get('@outer'), t.id)
                if ofid is not None:
                    st.setvar(ofid, t.id, v)
                    return
            if t.id in f.get('@global', ()):
                self.event('store_global', (t.id, v), st, t)
                return
            st.setvar(fid, t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            n = len(t.elts)
            self.event('unpack', (v, n), st, t)
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if star:
                i = star[0]
                after = n - i - 1
                items = self.known_items(v, st) if self.unroll_while else None
                if items is not None and len(items) >= n - 1:
                    stop = len(items) - after
                    vals = [*items[:i], self.newlist([('one', x, ()) for x in items[i:stop]], st, t), *items[stop:]]
                    for e, x in zip(t.elts, vals):
                        self.assign(e.value if isinstance(e, ast.Starred) else e, x, st, fid)
                    return
                for j in range(i):
                    self.assign(t.elts[j], self.getitem(v, const(j), st, t), st, fid)
                self.assign(t.elts[i].value,
                            mk('slice', v, const(i), const(-after) if after else NONE, NONE), st, fid)
                for j in range(after):
                    self.assign(t.elts[i + 1 + j], self.getitem(v, const(j - after), st, t), st, fid)
            else:
                vals = self.unpack(v, n, st, t)
                for e, x in zip(t.elts, vals):
                    self.assign(e, x, st, fid)
        elif isinstance(t, ast.Attribute):
            base = self.ev(t.value, st, fid)
            if not st.dead:
                self.setattr(base, t.attr, v, st, t)
        elif isinstance(t, ast.Subscript):
            base = self.ev(t.value, st, fid)
            idx = self.ev(t.slice, st, fid)
            if not st.dead:
                self.setitem(base, idx, v, st, t)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, st, fid)

    def unpack(self, v, n, st, node):
        if self.strict_none:
            v = self.present(v, st, node)
            if st.dead:
                return [UNBOUND] * n
        if v.op == 'tuple' and len(v.args) == n:
            return list(v.args)
        if v.op == 'ite':
            c, a, b = v.args
            q = st.query(c)
            if q is not None:
                return self.unpack(a if q else b, n, st, node)
            xs = self.unpack(a, n, st, node)
            ys = self.unpack(b, n, st, node)
            return [ite(c, x, y) for x, y in zip(xs, ys)]
        segs = st.heap.get((v, '[]'))
        if v.op == 'new' and segs is not None and len(segs) == n and all(s[0] == 'one' and not s[-1] for s in segs):
            return [s[1] for s in segs]
        return [self.getitem(v, const(i), st, node) for i in range(n)]

    def s_Delete(self, s, st, fid):
        for t in s.targets:
            if isinstance(t, ast.Name):
                st.setvar(fid, t.id, UNBOUND)
            elif isinstance(t, ast.Attribute):
                base = self.ev(t.value, st, fid)
                ty = self.typeof(base, st)
                d = ty.lookup_deleter(t.attr) if isinstance(ty, Class) else None
                if d is not None and self.may_inline(d):
                    self.call_method(d, base, (), (), st, t)
                else:
                    self.may_raise(st, 'AttributeError', mk('has', base, t.attr))
                    self.event('delattr', (base, t.attr), st, t)
                    st.heap[(base, t.attr)] = UNBOUND
            elif isinstance(t, ast.Subscript):
                base = self.ev(t.value, st, fid)
                idx = self.ev(t.slice, st, fid)
                if not st.dead:
                    ty = self.typeof(base, st)
                    m = ty.lookup('__delitem__') if isinstance(ty, Class) else None
                    if m and m[1] == 'method' and self.may_inline(m[2]):
                        self.call_method(m[2], base, (idx,), (), st, t)
                    else:
                        self.event('delitem', (base, idx), st, t)
                        self.touch(base, st)
                        if (base, '[]') in st.heap:
                            self.delete_item(base, idx, st, t)
            if st.dead:
                return

    def delete_item(self, base, idx, st, node):
        """Delete an item or slice of a container of which the contents may be known."""
        k = (base, '[]')
        segs = st.heap[k]
        ty = self.typeof(base, st)
        plain = ty == 'list' or isinstance(ty, Class) and ty.issub('list')
        if self.unroll_while and plain and exact(segs):
            l = list(segs)
            if idx.op == 'sl' and all(is_const(x) for x in idx.args):
                del l[slice(*(x.args[0] for x in idx.args))]
                st.heap[k] = tuple(l)
                return
            if is_const(idx) and isinstance(idx.args[0], int):
                if -len(l) <= idx.args[0] < len(l):
                    del l[idx.args[0]]
                    st.heap[k] = tuple(l)
                else:
                    self.do_raise(st, mk('exc', 'IndexError'))
                return
        st.heap[k] = (('some', mk('unknown', next(_fresh)), ()),)

    def s_Return(self, s, st, fid):
        v = NONE if s.value is None else self.ev(s.value, st, fid)
        if st.dead:
            return
        for ctx in reversed(self.ctxs):
            if ctx.kind == 'func' and ctx.fid == fid:
                ctx.returns.append((st.fork(), v))
                break
        st.dead = True

    def s_Raise(self, s, st, fid):
        exc = self.ev(s.exc, st, fid) if s.exc is not None else mk('exc', 'reraise')
        if st.dead:
            return
        self.event('raise', (exc,), st, s)
        self.do_raise(st, exc)

    def s_Assert(self, s, st, fid):
        c = self.cond(s.test, st, fid)
        if st.dead:
            return
        if st.query(c) is False:
            self.do_raise(st, mk('exc', 'AssertionError'))
            return
        st.know(c, True)

    def s_If(self, s, st, fid):
        c = self.cond(s.test, st, fid)
        if st.dead:
            return
        a, b = self.branch(st, c)
        if a is not None and b is not None:
            self.exec_block(s.body, a, fid)
            self.exec_block(s.orelse, b, fid)
            m = self.merge([a, b])
            if m is None:
                st.dead = True
            else:
                st.become(m)
        elif a is not None:
            self.exec_block(s.body, st, fid)
        else:
            self.exec_block(s.orelse, st, fid)

    def s_Match(self, s, st, fid):
        subj = self.ev(s.subject, st, fid)
        outs = []
        cur = st.fork()
        for case in s.cases:
            if cur is None or cur.dead:
                break
            c, binds = self.pattern(case.pattern, subj, cur, fid)
            a, b = self.branch(cur, c)
            if a is not None:
                for n, v in binds:
                    a.setvar(fid, n, v)
                if case.guard is not None:
                    g = self.cond(case.guard, a, fid)
                    a2, b2 = self.branch(a, g)
                    if b2 is not None:
                        b = self.merge([b, b2]) if b is not None else b2
                    a = a2
                if a is not None:
                    self.exec_block(case.body, a, fid)
                    outs.append(a)
            cur = b
        if cur is not None:
            outs.append(cur)
        m = self.merge(outs)
        if m is None:
            st.dead = True
        else:
            st.become(m)

    def pattern(self, p, subj, st, fid):
        if isinstance(p, ast.MatchValue):
            return self.compare('==', subj, self.ev(p.value, st, fid), st, p), []
        if isinstance(p, ast.MatchSingleton):
            return self.compare('is', subj, const(p.value), st, p), []
        if isinstance(p, ast.MatchAs):
            if p.pattern is None:
                return TRUE, [(p.name, subj)] if p.name else []
            c, b = self.pattern(p.pattern, subj, st, fid)
            return c, b + ([(p.name, subj)] if p.name else [])
        if isinstance(p, ast.MatchOr):
            r, bs = FALSE, []
            for q in p.patterns:
                c, b = self.pattern(q, subj, st, fid)
                r = mk_or(r, c)
                bs += b
            return r, bs
        if isinstance(p, ast.MatchClass) and not p.patterns and not p.kwd_patterns:
            return self.isinstance_(subj, self.ev(p.cls, st, fid), st), []
        return mk('choice', next(_fresh)), []

    def s_FunctionDef(self, s, st, fid):
        st.setvar(fid, s.name, self.closure(s, st, fid))

    def closure(self, node, st, fid):
        outer = self.stack[-1]
        key = ('closure', id(node))
        f = self._clscache.get(key)
        if f is None:
            f = self._clscache[key] = Func(node, outer.module, outer.cls, outer)
            f.kind = 'function'
        # defaults are evaluated now
        a = node.args
        dfl = tuple(self.ev(d, st, fid) for d in a.defaults)
        kdfl = tuple(self.ev(d, st, fid) if d is not None else UNBOUND for d in a.kw_defaults)
        return mk('closure', f, fid, dfl, kdfl)

    def s_ClassDef(self, s, st, fid):
        st.setvar(fid, s.name, mk('localclass', s.name, self.site(s)))

    def s_With(self, s, st, fid, i=0):
        if i >= len(s.items):
            self.exec_block(s.body, st, fid)
            return
        item = s.items[i]
        cm = self.ev(item.context_expr, st, fid)
        if st.dead:
            return
        if cm.op == 'cm':
            func, envkey = cm.args[0], cm.args[1]
            env = self.genenv[envkey]

            def body(st2, v, node):
                if item.optional_vars is not None:
                    self.assign(item.optional_vars, v, st2, fid)
                self.s_With(s, st2, fid, i + 1)
                return NONE
            self.run_gen_body(func, env, st, body)
            return
        ty = self.typeof(cm, st)
        ent = ty.lookup('__enter__') if isinstance(ty, Class) else None
        ext = ty.lookup('__exit__') if isinstance(ty, Class) else None
        v = None
        if ent and ent[1] == 'method' and self.may_inline(ent[2]) and ty.module.own:
            v = self.call_method(ent[2], cm, (), (), st, s)
        else:
            self.event('enter', (cm,), st, s)
            v = mk('entered', cm)
        if st.dead:
            return
        if item.optional_vars is not None:
            self.assign(item.optional_vars, v, st, fid)

        def final(x):
            if ext and ext[1] == 'method' and self.may_inline(ext[2]) and ty.module.own:
                self.call_method(ext[2], cm, (NONE, NONE, NONE), (), x, s)
            else:
                self.event('exit', (cm,), x, s)
        self.with_finally(lambda x: self.s_With(s, x, fid, i + 1), final, st)

    s_AsyncWith = s_With

    def with_finally(self, body, final, st):
        fctx = Ctx('finally')
        marks = [(c, [len(l) for l in c.lists()]) for c in self.ctxs]
        self.ctxs.append(fctx)
        try:
            body(st)
        finally:
            self.ctxs.pop()
        # exits that left through us
        for c, lens in marks:
            for l, n in zip(c.lists(), lens):
                keep = l[:n]
                for x in l[n:]:
                    stx = x[0] if isinstance(x, tuple) else x
                    final(stx)
                    if not stx.dead:
                        keep.append(x)
                l[:] = keep
        for stx, exc in fctx.raises:
            final(stx)
            if not stx.dead:
                self.do_raise(stx, exc)
        if not st.dead:
            final(st)

    def s_Try(self, s, st, fid):
        if s.finalbody:
            def body(x):
                self.try_except(s, x, fid)
            self.with_finally(body, lambda x: self.exec_block(s.finalbody, x, fid), st)
        else:
            self.try_except(s, st, fid)

    def try_except(self, s, st, fid):
        if not s.handlers:
            self.exec_block(s.body, st, fid)
            if not st.dead:
                self.exec_block(s.orelse, st, fid)
            return
        names = []
        for h in s.handlers:
            names.append(self.handler_names(h))
        allnames = [n for ns in names for n in ns]

        def catches(exc):
            return any(exc_matches(exc, n) for n in allnames)
        ctx = Ctx('try', catches=catches)
        self.ctxs.append(ctx)
        try:
            self.exec_block(s.body, st, fid)
        finally:
            self.ctxs.pop()
        outs = []
        if not st.dead:
            self.exec_block(s.orelse, st, fid)
            if not st.dead:
                outs.append(st.fork())
        # route raises to handlers
        routed = [[] for _ in s.handlers]
        for r, exc in ctx.raises:
            for i, ns in enumerate(names):
                if any(exc_matches(exc_name(exc), n) for n in ns):
                    routed[i].append((r, exc))
                    break
        for h, rs in zip(s.handlers, routed):
            for r, exc in rs:
                if r.dead:
                    continue
                if h.name:
                    r.setvar(fid, h.name, exc)
            if not rs:
                continue
            # handler body runs on each entry state separately to keep the gates
            groups = [r for r, exc in rs if not r.dead]
            m = self.merge(groups) if len(groups) > 6 else None
            for g in ([m] if m is not None else groups):
                self.exec_block(h.body, g, fid)
                if not g.dead:
                    outs.append(g)
        m = self.merge(outs)
        if m is None:
            st.dead = True
        else:
            st.become(m)

    s_TryStar = s_Try

    def handler_names(self, h):
        if h.type is None:
            return ['BaseException']
        elts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
        return [ast.unparse(e).split('.')[-1] for e in elts]

    # ---- loops
    def s_While(self, s, st, fid):
        def body(st2, exits):
            c = self.cond(s.test, st2, fid)
            if st2.dead:
                return
            a, b = self.branch(st2, c)
            if b is not None:
                exits.append(b.fork())
            if a is None:
                st2.dead = True
                return
            if a is not st2:
                st2.become(a)
            self.exec_block(s.body, st2, fid)
        if self.unroll_while and self.while_unrolled(s, st, fid):
            return
        self.loop(s, st, fid, body, s.orelse)

    def while_unrolled(self, s, st, fid):
        """Run a while loop of which every test is decided, False if it is not."""
        before = st.fork()
        lists = [(l, len(l)) for c in self.ctxs for l in c.lists()]
        events, outer = len(self.events), len(self.loops)
        lctx = Ctx('loop', fid=fid)
        self.ctxs.append(lctx)
        fine = False
        end = None
        rnd = 0
        try:
            for rnd in range(self.unroll_while):
                c = truth(self.cond(s.test, st, fid))
                if st.dead:
                    fine = True
                    break
                if not is_const(c):
                    q = st.query(c)
                    if q is None:
                        break
                    c = TRUE if q else FALSE
                if c is FALSE:
                    fine = True
                    end = st.fork()
                    break
                cctx = Ctx('iter', fid=fid)
                self.ctxs.append(cctx)
                self.loops.append('w%d.%d' % (self.site(s), rnd))
                try:
                    self.exec_block(s.body, st, fid)
                finally:
                    self.loops.pop()
                    self.ctxs.pop()
                if cctx.continues:
                    m = self.merge(cctx.continues + ([st.fork()] if not st.dead else []))
                    if m is None:
                        st.dead = True
                    else:
                        st.become(m)
                if st.dead:
                    fine = True
                    break
        finally:
            self.ctxs.pop()
            del self.loops[outer:]
        if not fine and rnd == self.unroll_while - 1:
            # every test was decided, and it went on and on
            self.event('endless', (const(s.lineno),), st, s)
            st.dead = fine = True
        if not fine:
            for l, n in lists:
                del l[n:]
            del self.events[events:]
            st.become(before)
            return False
        outs = []
        if end is not None:
            if s.orelse:
                self.exec_block(s.orelse, end, fid)
            if not end.dead:
                outs.append(end)
        outs.extend(lctx.breaks)
        m = self.merge(outs)
        if m is None:
            st.dead = True
        else:
            st.become(m)
        return True

    def s_For(self, s, st, fid):
        it = self.ev(s.iter, st, fid)
        if st.dead:
            return
        self.for_over(s, it, st, fid,
                      lambda st2, v, node: self.assign(s.target, v, st2, fid),
                      lambda st2: self.exec_block(s.body, st2, fid), s.orelse)

    s_AsyncFor = s_For

    def for_over(self, s, it, st, fid, bind, body, orelse):
        """General for; s is the node (for identity)."""
        lctx = Ctx('loop', fid=fid)
        self.ctxs.append(lctx)

        def once(st2, v, node):
            # one execution of the body with `continue` handling
            cctx = Ctx('iter', fid=fid)
            self.ctxs.append(cctx)
            try:
                bind(st2, v, node)
                if not st2.dead:
                    body(st2)
            finally:
                self.ctxs.pop()
            if cctx.continues:
                states = cctx.continues + ([st2.fork()] if not st2.dead else [])
                m = self.merge(states)
                if m is None:
                    st2.dead = True
                else:
                    st2.become(m)
            return NONE
        try:
            self.iterate(s, it, st, fid, once)
        finally:
            self.ctxs.pop()
        outs = []
        if not st.dead:
            if orelse:
                self.exec_block(orelse, st, fid)
            if not st.dead:
                outs.append(st.fork())
        outs.extend(lctx.breaks)
        m = self.merge(outs)
        if m is None:
            st.dead = True
        else:
            st.become(m)

    def crash(self, st, exc, node):
        """An operation that certainly fails (only for known shapes)."""
        caught = False
        for ctx in reversed(self.ctxs):
            if ctx.kind == 'try' and ctx.catches(exc):
                caught = True
                break
        self.event('caught' if caught else 'crash', (const(exc),), st, node)
        self.do_raise(st, mk('exc', exc))
        st.dead = True
        return UNBOUND

    def present(self, v, st, node, exc='TypeError'):
        """The value where it is used as an object: parts that are None fail (only if strict_none)."""
        if v is NONE:
            return self.crash(st, exc, node)
        if v.op == 'ite' and any(x is NONE for x, _ in leaves(v)):
            q = st.query(v.args[0])
            if q is not None:
                return self.present(v.args[1] if q else v.args[2], st, node, exc)
            a, b = self.branch(st, v.args[0])
            pairs = []
            for s2, x in ((a, v.args[1]), (b, v.args[2])):
                if s2 is not None and not s2.dead:
                    x = self.present(x, s2, node, exc)
                    if not s2.dead:
                        pairs.append((s2, x))
            m, r = self.merge_vals(pairs) if pairs else (None, UNBOUND)
            if m is None:
                st.dead = True
                return UNBOUND
            st.become(m)
            return r
        return v

    def numbered(self, s, i, once, st, v):
        """One round of a loop that is fully known; what it creates is distinguished by the round."""
        if not self.unroll_while:
            once(st, v, s)
            return
        self.loops.append('f%d.%d' % (self.site(s), i))
        n = len(self.loops)
        try:
            once(st, v, s)
        finally:
            del self.loops[n - 1:]

    def iterate(self, s, it, st, fid, once):
        """Run once(st, value, node) for the elements of `it`."""
        if it.op == 'iter' and it.args[0].op == 'new':
            # an iterator goes on where it was left
            segs = st.heap.get((it.args[0], '[]'))
            pos = st.heap.get((it, 'pos'), ZERO)
            if segs is not None and exact(segs) and len(segs) <= self.unroll and is_const(pos) and isinstance(pos.args[0], int):
                i = pos.args[0]
                while i < len(segs) and not st.dead:
                    st.heap[it, 'pos'] = const(i + 1)
                    self.numbered(s, i, once, st, segs[i][1])
                    segs = st.heap.get((it.args[0], '[]'), segs) if self.unroll_while else segs
                    pos = st.heap.get((it, 'pos'))
                    i = pos.args[0] if pos is not None and is_const(pos) else i + 1
                return
        it = self.resolve_iter(it, st)
        if self.unroll_while and it.op in ('gen', 'lazy'):
            rec = self.consuming.get(it)
            if rec is None:
                rec = self.consuming[it] = [0]
                each, index = once, [0]

                def once(st2, v, node):
                    i = index[0]
                    index[0] += 1
                    if i < rec[0]:
                        return NONE     # was taken by a loop inside this one
                    rec[0] = i + 1
                    return each(st2, v, node)
                once.relay = getattr(each, 'relay', False)
                try:
                    return self.iterate_resolved(s, it, st, fid, once)
                finally:
                    del self.consuming[it]
            # a loop over the iterator another loop is busy with: goes on where that one is
            probe = st.fork()
            keep, self.consuming = self.consuming, {}
            try:
                lst = self.collect(it, probe, s)
            finally:
                self.consuming = keep
            segs = probe.heap.get((lst, '[]'), NOSEGS)
            if not probe.dead and exact(segs) and len(segs) <= self.unroll:
                while rec[0] < len(segs) and not st.dead:
                    rec[0] += 1
                    self.numbered(s, rec[0] - 1, once, st, segs[rec[0] - 1][1])
                return
        return self.iterate_resolved(s, it, st, fid, once)

    def own_iterator(self, s, it, st, once):
        """Iterate over an object of the program that has a __next__() method (only for known shapes)."""
        ty = self.typeof(it, st)
        got = ty.lookup('__next__') if isinstance(ty, Class) else None
        if not got or got[1] != 'method' or not self.may_inline(got[2]):
            return False
        ends = []
        for i in range(self.unroll_while):
            ctx = Ctx('try', catches=lambda exc: exc_matches(exc, 'StopIteration'))
            self.ctxs.append(ctx)
            self.loops.append('n%d.%d' % (self.site(s), i))
            n = len(self.loops)
            try:
                v = self.call_method(got[2], it, (), (), st, s)
            finally:
                del self.loops[n - 1:]
                self.ctxs.pop()
            ends.extend(r for r, exc in ctx.raises if not r.dead)
            if st.dead:
                break
            self.numbered(s, i, once, st, v)
            if st.dead:
                break
        m = self.merge(ends)
        if m is None:
            st.dead = True
        else:
            st.become(m)
        return True

    def iterate_resolved(self, s, it, st, fid, once):
        if self.strict_none:
            it = self.present(it, st, s)
            if st.dead:
                return
        if self.unroll_while and is_const(it) and not isinstance(it.args[0], (str, bytes, tuple)):
            self.crash(st, 'TypeError', s)
            return
        if it.op == 'ite':
            q = st.query(it.args[0])
            if q is not None:
                return self.iterate(s, it.args[1] if q else it.args[2], st, fid, once)
            a, b = self.branch(st, it.args[0])
            self.iterate(s, it.args[1], a, fid, once)
            self.iterate(s, it.args[2], b, fid, once)
            m = self.merge([a, b])
            if m is None:
                st.dead = True
            else:
                st.become(m)
            return
        if self.unroll_while and is_const(it) and isinstance(it.args[0], str) and len(it.args[0]) <= self.unroll:
            it = mk('tuple', *(const(x) for x in it.args[0]))
        if self.unroll_while and it.op in ('call', 'reversed'):
            items = self.known_items(it, st)
            if items is not None:
                it = mk('tuple', *items)
        if it.op == 'tuple' and len(it.args) <= self.unroll:
            for i, v in enumerate(it.args):
                if st.dead:
                    return
                self.numbered(s, i, once, st, v)
            return
        if it.op == 'gen' or it.op == 'cm':
            func, key = it.args[0], it.args[1]
            if self.depth_ok(func):
                self.loops.append('g%d' % self.site(s))
                try:
                    self.run_gen_body(func, self.genenv[key], st, once)
                finally:
                    self.loops.pop()
                return
        if it.op == 'chain':
            for x in it.args:
                if st.dead:
                    return
                self.iterate(s, x, st, fid, once)
            return
        if it.op == 'lazy':     # map/filter/enumerate/zip/genexp
            kind = it.args[0]
            if kind == 'map':
                f, src = it.args[1], it.args[2]
                return self.iterate(s, src, st, fid, lambda st2, v, node:
                                    once(st2, self.call(f, (v,), (), st2, node), node))
            if kind in ('filter', 'filterfalse'):
                f, src = it.args[1], it.args[2]

                def filt(st2, v, node):
                    c = truth(v) if f is NONE else truth(self.call(f, (v,), (), st2, node))
                    if kind == 'filterfalse':
                        c = neg(c)
                    a, b = self.branch(st2, c)
                    if a is not None:
                        once(a, v, node)
                    m = self.merge([x for x in (a, b) if x is not None])
                    if m is None:
                        st2.dead = True
                    elif m is not st2:
                        st2.become(m)
                    return NONE
                return self.iterate(s, src, st, fid, filt)
            if kind == 'enumerate':
                src, start = it.args[1], it.args[2]
                if src.op == 'new':
                    src = self.spread(src, st, s)
                items = self.known_items(src, st)
                if items is not None and len(items) <= self.unroll and is_const(start):
                    for i, v in enumerate(items, start.args[0]):
                        if st.dead:
                            return
                        self.numbered(s, i, once, st, mk('tuple', const(i), v))
                    return
                return self.iterate(s, src, st, fid, lambda st2, v, node:
                                    once(st2, mk('tuple', mk('index', v, start), v), node))
            if kind == 'zip':
                srcs = it.args[1]
                tups = [self.known_items(x, st) for x in srcs]
                if None not in tups and srcs:
                    for i, vals in enumerate(list(zip(*tups))):
                        if st.dead:
                            return
                        self.numbered(s, i, once, st, mk('tuple', *vals))
                    return
            if kind == 'genexp':
                return self.run_comp(it, st, once)
            if kind == 'sentinel':
                pass
        if self.unroll_while and it.op == 'new' and self.own_iterator(s, it, st, once):
            return
        segs = st.heap.get((it, '[]'))
        if it.op == 'new' and segs is not None and len(segs) <= self.unroll \
                and all(x[0] == 'one' and not x[-1] for x in segs):
            for i, x in enumerate(segs):
                if st.dead:
                    return
                self.numbered(s, i, once, st, x[1])
            return
        if it.op == 'new' and segs is not None and segs and not any(x[0] == 'some' for x in segs) \
                and len(segs) <= self.unroll:
            # summarised contents: each segment
            for x in segs:
                if st.dead:
                    return
                self.seg_loop(s, x, st, fid, once)
            return

        self.event('consume', (it,), st, s)

        def body(st2, exits):
            ex = st2.fork()
            more = mk('more', it, len(self.loops))
            ex.path = ex.path + ((more, False),)
            st2.path = st2.path + ((more, True),)
            exits.append(ex)
            v = self.elem(it, st2)
            once(st2, v, s)
        self.loop(s, st, fid, body, None, key=it)

    def seg_loop(self, s, seg, st, fid, once):
        if seg[0] == 'one' and not seg[-1]:
            once(st, seg[1], s)
            return

        def body(st2, exits):
            ex = st2.fork()
            more = mk('more', seg[1], len(self.loops))
            ex.path = ex.path + ((more, False),)
            st2.path = st2.path + ((more, True),)
            exits.append(ex)
            for c, pol in seg[-1]:
                st2.know(c, pol)
            once(st2, seg[1], s)
        self.loop(s, st, fid, body, None, key=seg[1])

    def resolve_iter(self, it, st):
        """Reduce an iterable term."""
        for _ in range(10):
            if it.op == 'iter':
                it = it.args[0]
                continue
            ty = self.typeof(it, st)
            if isinstance(ty, Class) and it.op not in ('lazy', 'gen', 'tuple'):
                m = ty.lookup('__iter__')
                if m and m[1] == 'method' and self.may_inline(m[2]):
                    r = self.call_method(m[2], it, (), (), st, m[2].node)
                    if r is it or st.dead:
                        return it
                    it = r
                    continue
            return it
        return it

    def elem(self, it, st):
        """The generic element of an iterable."""
        if it.op == 'lazy' and it.args[0] == 'zip':
            return mk('tuple', *(self.elem(self.resolve_iter(x, st), st) for x in it.args[1]))
        if it.op == 'reversed':
            return mk('elem', it.args[0], 'rev')
        if it.op == 'call' and it.args[0].op == 'attr' and it.args[0].args[1] == 'items' and not it.args[1]:
            k = mk('elem', it.args[0].args[0], 'key')
            return mk('tuple', k, mk('item', it.args[0].args[0], k))
        if it.op == 'call' and it.args[0].op == 'attr' and it.args[0].args[1] == 'values' and not it.args[1]:
            return mk('item', it.args[0].args[0], mk('elem', it.args[0].args[0], 'key'))
        if it.op == 'call' and it.args[0].op == 'attr' and it.args[0].args[1] == 'keys' and not it.args[1]:
            return mk('elem', it.args[0].args[0], 'key')
        return mk('elem', it, '')

    def loop(self, s, st, fid, body, orelse, key=None):
        """Fixpoint of a loop. body(st, exits) runs one iteration."""
        lid = self.site(s)
        pre = st.fork()
        modified = {}       # ('v',fid,name) or ('h',key)  -> mu term
        lists = [(c, l) for c in self.ctxs for l in c.lists()]
        marks = [len(l) for c, l in lists]
        emark = len(self.events)
        outer = len(self.loops)
        self.loops.append(lid)
        final = None
        own = Ctx('loop', fid=fid) if isinstance(s, ast.While) else None
        try:
            for rnd in range(6):
                for (c, l), n in zip(lists, marks):
                    del l[n:]
                del self.events[emark:]
                if own is not None:
                    own = Ctx('loop', fid=fid)
                    self.ctxs.append(own)
                    cctx = Ctx('iter', fid=fid)
                    self.ctxs.append(cctx)
                head = pre.fork()
                for k, m in modified.items():
                    if k[0] == 'v':
                        head.setvar(k[1], k[2], m)
                    elif k[0] == 'h':
                        if k[1][1] == '[]':
                            head.heap[k[1]] = m
                        else:
                            head.heap[k[1]] = m
                    elif k[0] == 'ver':
                        head.vers[k[1]] = m
                if modified:
                    bad = [m for m in modified.values() if isinstance(m, T)]
                    head.facts = dict(pre.facts)
                exits = []
                cur = head.fork()
                try:
                    body(cur, exits)
                finally:
                    if own is not None:
                        self.ctxs.pop()
                        self.ctxs.pop()
                if own is not None and cctx.continues:
                    states = cctx.continues + ([cur.fork()] if not cur.dead else [])
                    mm = self.merge(states)
                    if mm is not None:
                        cur.become(mm)
                new = {}
                if not cur.dead:
                    for f, env in cur.frames.items():
                        henv = head.frames.get(f)
                        if henv is None or henv is env:
                            continue
                        for n, v in env.items():
                            if n.startswith('@'):
                                continue
                            if henv.get(n, UNBOUND) is not v:
                                k = ('v', f, n)
                                if k not in modified:
                                    new[k] = mk('mu', lid, n, f if f != fid else 0)
                                self.mu[modified.get(k, new.get(k))] = (
                                    pre.frames.get(f, {}).get(n, UNBOUND), v)
                    for hk, v in cur.heap.items():
                        hv = head.heap.get(hk)
                        if hv is v or hv == v:
                            continue
                        k = ('h', hk)
                        if hk[1] == '[]':
                            if k not in modified:
                                pass
                            # summarise: contents before + loop segments
                            base = pre.heap.get(hk, ())
                            add = v[len(hv):] if hv is not None and v[:len(hv)] == hv else None
                            if hv is None:
                                base, add = (), v
                            if add is None:
                                nm = (('some', mk('mu', lid, 'list', hk[0].id), ()),)
                            else:
                                nm = base + tuple(self.loopseg(x, lid, key) for x in add)
                            if k not in modified or (modified[k] != nm and rnd < 4):
                                if hk[0] in pre_objs(pre) or hk in pre.heap:
                                    new[k] = nm
                            continue
                        if hk not in pre.heap and hk[0].op == 'new' and not any(
                                mentions(x, hk[0]) for x in ()):
                            # object created inside the loop
                            if self.in_loop_site(hk[0], lid):
                                continue
                        if k not in modified:
                            new[k] = mk('mu', lid, hk[1], hk[0])
                        self.mu[modified.get(k, new.get(k))] = (
                            pre.heap.get(hk, self.heap_default(hk)), v)
                    for vk, n in cur.vers.items():
                        if head.vers.get(vk, 0) != n:
                            k = ('ver', vk)
                            if k not in modified:
                                new[k] = next(_fresh) + 1000000
                if not new:
                    break
                modified.update(new)
            brks = own.breaks if own is not None else []
        finally:
            del self.loops[outer:]
        # exit states: strip iteration-specific facts
        def strip(x):
            drop = [f for f in x.facts if f not in pre.facts and self.iter_specific(f, lid, key)]
            for f in drop:
                del x.facts[f]
            return x
        pl = len(pre.path)
        outs = []
        self.loopinfo[lid] = dict(pre=pre, modified=modified, node=s, key=key, end=cur)
        normal = self.merge(exits)
        if isinstance(s, ast.While) and brks:
            self.breakfacts[mk('brk', lid)] = [dict(b.facts) for b in brks if not b.dead]
        if normal is not None:
            # make the exit value visible: mu or first (zero-trip) value
            normal = normal.fork()
            normal.path = pre.path
            strip(normal)
            if orelse:
                brk = mk('brk', lid)
                if brks:
                    normal.path = pre.path + ((brk, False),)
                self.exec_block(orelse, normal, fid)
            outs.append(normal)
        if isinstance(s, ast.While):
            if brks:
                m = self.merge(brks)
                if m is not None:
                    m = m.fork()
                    brk = mk('brk', lid)
                    m.path = pre.path + ((brk, True),)
                    if normal is not None and not normal.dead:
                        if not (orelse):
                            normal.path = pre.path + ((brk, False),)
                    outs.append(m)
        else:
            # breaks are collected by for_over; give them a distinguishing path
            for c in reversed(self.ctxs):
                if c.kind == 'loop':
                    if c.breaks:
                        brk = mk('brk', lid)
                        self.breakfacts[brk] = [dict(b.facts) for b in c.breaks if not b.dead]
                        m = self.merge([b for b in c.breaks])
                        if m is not None:
                            m = m.fork()
                            m.path = pre.path + ((brk, True),)
                            c.breaks[:] = [m]
                            if normal is not None:
                                normal.path = pre.path + ((brk, False),)
                    break
        m = self.merge(outs)
        if m is None:
            st.dead = True
        else:
            st.become(m)

    def in_loop_site(self, obj, lid):
        return True

    def loopseg(self, seg, lid, key):
        if seg[0] in ('one', 'each'):
            return ('each', seg[1], seg[-1])
        return seg

    def iter_specific(self, fact, lid, key):
        el = ()
        for x in subterms(fact):
            if x.op == 'mu' and x.args[0] == lid:
                # facts about a mu at the exit of the loop remain valid at the exit
                return False
            if x.op == 'elem' and key is not None and x.args[0] is key:
                return True
            if x.op == 'more':
                return True
        return False

    def s_Break(self, s, st, fid):
        for ctx in reversed(self.ctxs):
            if ctx.kind == 'loop' and ctx.fid == fid:
                ctx.breaks.append(st.fork())
                break
        st.dead = True

    def s_Continue(self, s, st, fid):
        for ctx in reversed(self.ctxs):
            if ctx.kind == 'iter' and ctx.fid == fid:
                ctx.continues.append(st.fork())
                break
        st.dead = True

    # -------------------------------------------------------------- conditions
    def cond(self, e, st, fid):
        return self.norm_cond(self.truth_of(self.ev(e, st, fid), st, e), st)

    def truth_of(self, v, st, node):
        """The truth of a value; for objects of known shape by their own __bool__()."""
        if self.unroll_while and not st.dead:
            if v.op == 'new' and st.query(truth(v)) is None:
                ty = self.typeof(v, st)
                f = ty.lookup('__bool__') if isinstance(ty, Class) else None
                if f and f[1] == 'method' and self.may_inline(f[2]):
                    return self.truth_of(self.call_method(f[2], v, (), (), st, node), st, node)
            elif v.op == 'ite' and any(x.op == 'new' for x, _ in leaves(v)):
                a, b = self.branch(st, v.args[0])
                out = [truth(x) if s is None else self.truth_of(x, s, node) for s, x in ((a, v.args[1]), (b, v.args[2]))]
                m = self.merge([x for x in (a, b) if x is not None])
                if m is not None:
                    st.become(m)
                return ite(v.args[0], *out)
        return truth(v)

    def norm_cond(self, c, st):
        return c

    # -------------------------------------------------------------- expressions
    def ev(self, e, st, fid):
        if st.dead:
            return UNBOUND
        self.tick()
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            self.notes.append('unsupported expression ' + type(e).__name__)
            return mk('unknown', next(_fresh))
        return m(e, st, fid)

    def e_Constant(self, e, st, fid):
        return const(e.value)

    def e_Name(self, e, st, fid):
        return self.lookup_name(e.id, st, fid, e)

    def find_frame(self, st, fid, name):
        while fid is not None:
            f = st.frames.get(fid)
            if f is None:
                return None
            if name in f and name not in f.get('@nonlocal', ()):
                return fid
            fid = f.get('@outer')
        return None

    def lookup_name(self, name, st, fid, node):
        f = st.frames[fid]
        if name in f and name not in f.get('@global', ()):
            v = f[name]
            if v is UNBOUND or (v.op in ('ite', 'phi') and any(x is UNBOUND for x, _ in leaves(v))):
                self.event('maybe_unbound', (name, v), st, node)
                # continue with the bound part
                bound = [x for x, _ in leaves(v) if x is not UNBOUND]
                if not bound:
                    return mk('unknown', next(_fresh))
                return v
            if any(x.op == 'mu' for x, _ in leaves(v)):
                self.event('loop_var', (name, v), st, node)
            return v
        if '@class' in f and name == '__class__':
            return f['@class']
        ofid = self.find_frame(st, f.get('@outer'), name)
        if ofid is not None:
            return st.frames[ofid][name]
        func = f.get('@func')
        mod = func.args[0].module if func is not None else self.stack[-1].module
        if func is not None and self.is_local(func.args[0], name) and name not in f.get('@global', ()):
            self.event('maybe_unbound', (name, UNBOUND), st, node)
            return mk('unknown', next(_fresh))
        r = self.model.resolve_name(mod, name)
        v = self.from_resolved(r)
        if v is None:
            self.event('undefined', (name,), st, node)
            return mk('undefined', mod.name, name)
        return v

    def is_local(self, func, name):
        loc = getattr(func, '_locals', None)
        if loc is None:
            from .model import own_nodes
            loc = set()
            glob = set()
            for n in own_nodes(func.node):
                if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                    loc.add(n.id)
                elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                    loc.add(n.name)
                elif isinstance(n, (ast.Global, ast.Nonlocal)):
                    glob.update(n.names)
                elif isinstance(n, ast.ExceptHandler) and n.name:
                    loc.add(n.name)
            # comprehension variables are local to the comprehension
            comp = set()
            for n in own_nodes(func.node):
                if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                    for g in n.generators:
                        for x in ast.walk(g.target):
                            if isinstance(x, ast.Name):
                                comp.add(x.id)
            real = set()
            for n in own_nodes(func.node):
                if isinstance(n, (ast.Assign, ast.AugAssign, ast.AnnAssign, ast.For, ast.withitem, ast.NamedExpr)):
                    ts = n.targets if isinstance(n, ast.Assign) else [
                        getattr(n, 'target', None) or getattr(n, 'optional_vars', None)]
                    for t in ts:
                        if t is not None:
                            for x in ast.walk(t):
                                if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                                    real.add(x.id)
            loc = (loc - (comp - real)) - glob
            func._locals = loc
        return name in loc

    def from_resolved(self, r):
        if isinstance(r, Class):
            return mk('cls', r)
        if isinstance(r, Func):
            return mk('func', r)
        if isinstance(r, Module):
            return mk('mod', r)
        if isinstance(r, tuple):
            if r[0] == 'builtin':
                if r[1] == 'True':
                    return TRUE
                return mk('builtin', r[1])
            if r[0] == 'external':
                return mk('ext', r[1])
            if r[0] == 'expr':
                expr = r[2]
                if isinstance(expr, ast.Constant):
                    return const(expr.value)
                if isinstance(expr, (ast.BinOp, ast.UnaryOp)):
                    v = fold(expr)
                    if v is not None:
                        return const(v)
                if isinstance(expr, ast.UnaryOp) and isinstance(expr.operand, ast.Constant) \
                        and isinstance(expr.op, ast.USub):
                    return const(-expr.operand.value)
                if isinstance(expr, ast.Tuple):
                    try:
                        v = self.model.literal(r[1], expr)
                        return self.from_literal(v)
                    except (ValueError, TypeError):
                        pass
                if isinstance(expr, ast.Lambda):
                    key = ('modlambda', id(expr))
                    f = self._clscache.get(key)
                    if f is None:
                        f = self._clscache[key] = Func(expr, r[1])
                    return mk('func', f)
                return mk('global', r[1].name, r[3])
        return None

    def from_literal(self, v):
        if isinstance(v, tuple) and not (len(v) == 2 and v[0] in ('builtin', 'external')):
            return mk('tuple', *(self.from_literal(x) for x in v))
        if isinstance(v, tuple):
            return self.from_resolved(v)
        if isinstance(v, (Class, Func, Module)):
            return self.from_resolved(v)
        if isinstance(v, (list, dict, set)):
            raise ValueError
        return const(v)

    def e_NamedExpr(self, e, st, fid):
        v = self.ev(e.value, st, fid)
        self.assign(e.target, v, st, fid)
        return v

    def e_Tuple(self, e, st, fid):
        if any(isinstance(x, ast.Starred) for x in e.elts):
            return self.star_seq(e.elts, st, fid, 'tuple', e)
        return mk('tuple', *[self.ev(x, st, fid) for x in e.elts])

    def star_seq(self, elts, st, fid, kind, node):
        parts = []
        for x in elts:
            if isinstance(x, ast.Starred):
                v = self.spread(self.ev(x.value, st, fid), st, node)
                parts.append(('star', v))
            else:
                parts.append(('one', self.ev(x, st, fid)))
        flat = []
        for k, v in parts:
            if k == 'star':
                if v.op == 'tuple':
                    flat.extend(('one', y) for y in v.args)
                    continue
            flat.append((k, v))
        if kind == 'tuple' and all(k == 'one' for k, v in flat):
            return mk('tuple', *(v for k, v in flat))
        return mk('seq', kind, *(v if k == 'one' else mk('star', v) for k, v in flat))

    def new_iter(self, x, st, node):
        """An iterator that remembers where it is."""
        if x.op == 'tuple':
            x = self.newlist(self.segments(x, st), st, node)
        it = mk('iter', x, self.site(node))
        st.heap[it, 'pos'] = ZERO
        return it

    def newlist(self, segs, st, node, kind='list'):
        t = mk('new', mk('builtin', kind), self.site(node))
        st.heap[(t, '[]')] = tuple(segs)
        st.vers[t] = st.vers.get(t, 0) + 1
        return t

    def e_List(self, e, st, fid):
        segs = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                v = self.spread(self.ev(x.value, st, fid), st, e)
                segs.extend(self.segments(v, st))
            else:
                segs.append(('one', self.ev(x, st, fid), ()))
        return self.newlist(segs, st, e)

    def e_Set(self, e, st, fid):
        segs = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                segs.extend(self.segments(self.spread(self.ev(x.value, st, fid), st, e), st))
            else:
                segs.append(('one', self.ev(x, st, fid), ()))
        return self.newlist(segs, st, e, 'set')

    def e_Dict(self, e, st, fid):
        segs = []
        for k, v in zip(e.keys, e.values):
            if k is None:
                segs.append(('some', self.ev(v, st, fid), ()))
            else:
                kk = self.ev(k, st, fid)
                segs.append(('one', mk('tuple', kk, self.ev(v, st, fid)), ()))
        return self.newlist(segs, st, e, 'dict')

    def segments(self, v, st):
        """Contents of an iterable as segments."""
        if v.op == 'tuple':
            return [('one', x, ()) for x in v.args]
        s = st.heap.get((v, '[]'))
        if v.op == 'new' and s is not None:
            return list(s)
        if v.op == 'seq':
            out = []
            for x in v.args[1:]:
                if x.op == 'star':
                    out.extend(self.segments(x.args[0], st))
                else:
                    out.append(('one', x, ()))
            return out
        return [('some', v, ())]

    def e_Starred(self, e, st, fid):
        return mk('star', self.spread(self.ev(e.value, st, fid), st, e))

    def spread(self, v, st, node):
        """An iterable that is spread out: a tuple if its items are known (only for known shapes)."""
        if self.unroll_while and not st.dead:
            if v.op in ('gen', 'lazy', 'chain', 'iter'):
                v = self.collect(v, st, node)
            if v.op == 'new' and exact(st.heap.get((v, '[]'), NOSEGS)):
                ty = self.typeof(v, st)
                if not isinstance(ty, Class) or not ty.lookup('__iter__') or ty.lookup('__iter__')[1] == 'builtin':
                    return mk('tuple', *(x[1] for x in st.heap[v, '[]']))
        return v

    def e_JoinedStr(self, e, st, fid):
        parts = []
        for v in e.values:
            if isinstance(v, ast.FormattedValue):
                parts.append(self.ev(v.value, st, fid))
            else:
                parts.append(const(v.value))
        return mk('fmt', tuple(parts))

    def e_FormattedValue(self, e, st, fid):
        return mk('fmt', (self.ev(e.value, st, fid),))

    def e_Attribute(self, e, st, fid):
        b = self.ev(e.value, st, fid)
        if st.dead:
            return UNBOUND
        return self.getattr(b, e.attr, st, e)

    def e_Subscript(self, e, st, fid):
        b = self.ev(e.value, st, fid)
        i = self.ev(e.slice, st, fid)
        if st.dead:
            return UNBOUND
        return self.getitem(b, i, st, e)

    def e_Slice(self, e, st, fid):
        f = lambda x: NONE if x is None else self.ev(x, st, fid)
        return mk('sl', f(e.lower), f(e.upper), f(e.step))

    def truth_now(self, v, st):
        """The truth of a value; that of an object that may change later is decided now."""
        t = truth(v)
        if self.unroll_while and v.op == 'new':
            q = st.query(t)
            if q is not None:
                return const(q)
            return self.truth_of(v, st, None)
        return t

    def e_UnaryOp(self, e, st, fid):
        v = self.ev(e.operand, st, fid)
        if isinstance(e.op, ast.Not):
            return neg(self.truth_now(v, st))
        if is_const(v) and isinstance(v.args[0], (int, float)):
            if isinstance(e.op, ast.USub):
                return const(-v.args[0])
            if isinstance(e.op, ast.UAdd):
                return v
            if isinstance(e.op, ast.Invert):
                return const(~v.args[0])
        if isinstance(e.op, ast.UAdd):
            return v
        return mk('neg' if isinstance(e.op, ast.USub) else 'inv', v)

    def e_BinOp(self, e, st, fid):
        a = self.ev(e.left, st, fid)
        b = self.ev(e.right, st, fid)
        if st.dead:
            return UNBOUND
        return self.binop(BINOPS[type(e.op)], a, b, st, e)

    DUNDER = {'+': '__add__', '-': '__sub__', '*': '__mul__', '/': '__truediv__', '//': '__floordiv__',
              '%': '__mod__', '<<': '__lshift__', '^': '__xor__', '|': '__or__', '&': '__and__'}

    def binop(self, op, a, b, st, node):
        if self.strict_none:
            a = self.present(a, st, node)
            if not st.dead and not (op == '%' and is_const(a)):
                b = self.present(b, st, node)
            if st.dead:
                return UNBOUND
        if is_const(a) and is_const(b):
            x, y = a.args[0], b.args[0]
            try:
                if isinstance(x, (int, float)) and isinstance(y, (int, float)):
                    r = {'+': lambda: x + y, '-': lambda: x - y, '*': lambda: x * y, '//': lambda: x // y,
                         '%': lambda: x % y, '|': lambda: x | y, '&': lambda: x & y,
                         '<<': lambda: x << y, '>>': lambda: x >> y, '^': lambda: x ^ y}.get(op)
                    if r:
                        return const(r())
                if isinstance(x, str) and isinstance(y, str) and op == '+':
                    return const(x + y)
                if isinstance(x, str) and isinstance(y, int) and op == '*' and abs(y) < 100:
                    return const(x * y)
            except Exception:
                pass
        if a.op == 'ite' and op in ('+', '-', '*') and False:
            return ite(a.args[0], self.binop(op, a.args[1], b, st, node), self.binop(op, a.args[2], b, st, node))
        if op == '+' and a.op == 'tuple' and b.op == 'tuple':
            return mk('tuple', *(a.args + b.args))
        if op in ('<<', '>>', '/', '//', '^') or op in ('+', '-', '*', '%', '|', '&'):
            ty = self.typeof(a, st)
            if isinstance(ty, Class) and op in self.DUNDER:
                m = ty.lookup(self.DUNDER[op])
                if m and m[1] == 'method' and self.may_inline(m[2]):
                    return self.call_method(m[2], a, (b,), (), st, node)
            tb = self.typeof(b, st)
            if isinstance(tb, Class) and op in self.DUNDER:
                m = tb.lookup('__r' + self.DUNDER[op][2:])
                if m and m[1] == 'method' and self.may_inline(m[2]):
                    return self.call_method(m[2], b, (a,), (), st, node)
        if self.is_listy(a, st) and op == '+':
            segs = list(st.heap.get((a, '[]'), ())) + self.segments(b, st)
            return self.newlist(segs, st, node)
        return mk('bin', op, a, b)

    def e_BoolOp(self, e, st, fid):
        isand = isinstance(e.op, ast.And)

        def rec(vals, st):
            v = self.ev(vals[0], st, fid)
            if len(vals) == 1 or st.dead:
                return v
            c = self.truth_of(v, st, vals[0])
            a, b = self.branch(st, c)
            go, stay = (a, b) if isand else (b, a)
            if go is None:
                return v
            if stay is None:
                return rec(vals[1:], st)
            r = rec(vals[1:], go)
            if go.dead:
                st.become(stay)
                return v
            stay_v = v
            if is_bool(v):
                stay_v = FALSE if isand else TRUE
            m, val = self._merge([(go, r), (stay, stay_v)])
            st.become(m)
            return val
        return rec(e.values, st)

    def e_IfExp(self, e, st, fid):
        c = self.cond(e.test, st, fid)
        if st.dead:
            return UNBOUND
        a, b = self.branch(st, c)
        if b is None:
            return self.ev(e.body, st, fid)
        if a is None:
            return self.ev(e.orelse, st, fid)
        x = self.ev(e.body, a, fid)
        y = self.ev(e.orelse, b, fid)
        m, v = self.merge_vals([(a, x), (b, y)])
        if m is None:
            st.dead = True
            return UNBOUND
        st.become(m)
        return v

    def e_Compare(self, e, st, fid):
        left = self.ev(e.left, st, fid)
        r = None
        for op, c in zip(e.ops, e.comparators):
            right = self.ev(c, st, fid)
            if st.dead:
                return UNBOUND
            t = self.compare(CMPOPS[type(op)], left, right, st, e)
            r = t if r is None else (mk_and(r, t) if is_bool(r) and is_bool(t) else t)
            left = right
        return r

    def compare(self, op, a, b, st, node):
        if op == '!=':
            return neg(self.compare('==', a, b, st, node))
        if op == 'is not':
            return neg(self.compare('is', a, b, st, node))
        if op == 'not in':
            return neg(self.compare('in', a, b, st, node))
        if op in ('<', '>'):
            ty = self.typeof(a, st)
            if isinstance(ty, Class):
                m = ty.lookup('__lt__' if op == '<' else '__gt__')
                if m and m[1] == 'method' and self.may_inline(m[2]):
                    return self.call_method(m[2], a, (b,), (), st, node)
        if self.unroll_while and op == '==' and a.op == 'new' and b.op == 'new' and a is not b:
            ty = self.typeof(a, st)
            if isinstance(ty, Class) and ty.module.own:
                m = ty.lookup('__eq__')
                if m and m[1] == 'method' and self.may_inline(m[2]):
                    return self.call_method(m[2], a, (b,), (), st, node)
                if not m or m[1] != 'builtin':
                    return FALSE
        if self.strict_none and op in ('<', '>', '<=', '>=', 'in'):
            if op != 'in':
                a = self.present(a, st, node)
            if not st.dead:
                b = self.present(b, st, node)
            if st.dead:
                return FALSE
        if op == '>':
            a, b, op = b, a, '<'
        if op == '>=':
            return neg(self.compare('<', a, b, st, node))
        if op == '<=':
            return neg(self.compare('<', b, a, st, node))
        if self.unroll_while and op in ('<', '==') and a.op in ('new', 'tuple') and b.op in ('new', 'tuple'):
            # sequences of known values
            x, y = self.known_values(a, st), self.known_values(b, st)
            if x is not None and y is not None and type(x) is type(y):
                try:
                    return TRUE if (x == y if op == '==' else x < y) else FALSE
                except TypeError:
                    pass
        if is_const(a) and is_const(b):
            x, y = a.args[0], b.args[0]
            try:
                if op == '==':
                    return TRUE if x == y else FALSE
                if op == '<':
                    return TRUE if x < y else FALSE
                if op == 'is':
                    if x is None or y is None or isinstance(x, bool) or isinstance(y, bool):
                        return TRUE if x is y else FALSE
                if op == 'in' and isinstance(y, str):
                    return TRUE if x in y else FALSE
            except TypeError:
                pass
        if op in ('is', '=='):
            if a is b and op == 'is':
                return TRUE
            if a is NONE and b is not NONE:
                a, b = b, a
            if b is NONE:
                return is_none(a)
            if is_const(a) and not is_const(b):
                a, b = b, a
            if a.op == 'cls' and b.op == 'cls':
                return TRUE if a is b else FALSE
            if a.op == 'new' and b.op == 'new' and op == 'is':
                return FALSE
            if op == '==' and a is b and a.op in ('attr', 'param', 'len', 'elem'):
                return TRUE
            if not is_const(b) and a.id > b.id and op == 'is':
                a, b = b, a
            if op == '==' and not is_const(b) and a.id > b.id:
                a, b = b, a
            if a.op == 'len' and b is ZERO:
                return neg(mk('cmp', '<', ZERO, a))
            if is_const(b) and isinstance(b.args[0], bool) and is_bool(a):
                return a if b.args[0] else neg(a)
        if op == '<' and is_const(b) and b.args[0] == 1 and a.op == 'len':
            return neg(mk('cmp', '<', ZERO, a))
        if op == 'in':
            self.may_in = None
            ty = self.typeof(b, st)
            if isinstance(ty, Class):
                m = ty.lookup('__contains__')
                if m and m[1] == 'method' and self.may_inline(m[2]):
                    return truth(self.call_method(m[2], b, (a,), (), st, node))
            if b.op == 'tuple' and len(b.args) <= 8:
                r = FALSE
                for x in b.args:
                    r = mk_or(r, self.compare('==', a, x, st, node))
                return r
            segs = st.heap.get((b, '[]'))
            if b.op == 'new' and segs is not None and b.args[0].args[0] in ('set', 'list', 'frozenset') and len(segs) <= (8 if not is_const(a) else 60) \
                    and all(x[0] == 'one' and is_const(x[1]) and not x[-1] for x in segs):
                r = FALSE
                for x in segs:
                    r = mk_or(r, self.compare('==', a, x[1], st, node))
                return r
            if self.unroll_while and a.op == 'new' and b.op == 'new' and segs is not None and exact(segs) \
                    and b.args[0].args[0] in ('set', 'list', 'frozenset') and all(x[1].op == 'new' or is_const(x[1]) for x in segs):
                # objects of known identity
                r = FALSE
                for x in segs:
                    r = mk_or(r, TRUE if x[1] is a else self.compare('==', a, x[1], st, node))
                return r
            if self.unroll_while and is_const(a) and b.op == 'new' and b.args[0] is mk('builtin', 'dict') and segs is not None \
                    and all(x[0] == 'one' and not x[-1] and x[1].op == 'tuple' and is_const(x[1].args[0]) for x in segs):
                return const(any(x[1].args[0] is a for x in segs))
        return mk('cmp', op, a, b)

    def e_Lambda(self, e, st, fid):
        return self.closure(e, st, fid)

    def e_Await(self, e, st, fid):
        return self.ev(e.value, st, fid)

    def e_Yield(self, e, st, fid):
        v = NONE if e.value is None else self.ev(e.value, st, fid)
        if st.dead:
            return UNBOUND
        for ctx in reversed(self.ctxs):
            if ctx.kind == 'func' and ctx.fid == fid:
                # control contexts of the generator must not catch what the consumer does
                i = self.ctxs.index(ctx)
                return ctx.on_yield(st, v, e) if hasattr(ctx, 'on_yield') else mk('unknown', next(_fresh))
        return mk('unknown', next(_fresh))

    def e_YieldFrom(self, e, st, fid):
        it = self.ev(e.value, st, fid)
        if st.dead:
            return UNBOUND
        ctx = None
        for c in reversed(self.ctxs):
            if c.kind == 'func' and c.fid == fid:
                ctx = c
                break
        if ctx is None or not hasattr(ctx, 'on_yield'):
            return mk('unknown', next(_fresh))
        r = self.resolve_iter(it, st)
        if r.op == 'gen' or r.op in ('tuple', 'ite', 'chain') or (r.op == 'lazy') or (self.unroll_while and r.op == 'new'):
            def relay(st2, v, node):
                return ctx.on_yield(st2, v, e)
            relay.relay = True
            self.iterate(e, it, st, fid, relay)
        else:
            # opaque source: one yield of the generic element
            self.event('yield_from', (r,), st, e)
            self.iterate(e, it, st, fid, lambda st2, v, node: ctx.on_yield(st2, mk('from', r, v), e))
        return NONE

    # ---- comprehensions
    def comp_term(self, e, st, fid, kind):
        """A lazy generator expression; environment kept by frame id."""
        first = self.ev(e.generators[0].iter, st, fid)
        key = len(self.genenv)
        self.genenv[key] = (e, fid, first, self.stack[-1])
        return mk('lazy', 'genexp', key)

    def e_GeneratorExp(self, e, st, fid):
        return self.comp_term(e, st, fid, 'gen')

    def known_values(self, t, st):
        """The list or tuple that t is, if all its items are known constants."""
        if t.op == 'tuple':
            items, make = t.args, tuple
        elif t.op == 'new' and t.args[0] is mk('builtin', 'list'):
            segs = st.heap.get((t, '[]'), NOSEGS)
            if not exact(segs):
                return None
            items, make = [x[1] for x in segs], list
        else:
            return None
        return make(x.args[0] for x in items) if all(is_const(x) for x in items) else None

    def known_items(self, t, st):
        """The items of an iterable when all are known."""
        if t.op == 'tuple':
            return t.args
        if not self.unroll_while:
            return None
        if t.op == 'call' and t.args[0] is mk('builtin', 'range') and t.args[1] and all(
                is_const(x) and isinstance(x.args[0], int) for x in t.args[1]):
            r = range(*(x.args[0] for x in t.args[1]))
            return [const(i) for i in r] if len(r) <= self.unroll else None
        if t.op == 'reversed':
            items = self.known_items(t.args[0], st)
            return items and items[::-1]
        if t.op == 'new':
            segs = st.heap.get((t, '[]'), NOSEGS)
            return [x[1] for x in segs] if exact(segs) and len(segs) <= self.unroll else None
        if t.op == 'lazy' and t.args[0] == 'zip':
            srcs = [self.known_items(x, st) for x in t.args[1]]
            return None if None in srcs else [mk('tuple', *x) for x in zip(*srcs)]
        if t.op == 'lazy' and t.args[0] == 'enumerate' and is_const(t.args[2]):
            src = self.known_items(t.args[1], st)
            return None if src is None else [mk('tuple', const(i), x) for i, x in enumerate(src, t.args[2].args[0])]
        return None

    def run_comp(self, lazy, st, once):
        e, fid, first, func = self.genenv[lazy.args[1]]
        nfid = next(self.fids)
        env = {'@outer': fid, '@func': mk('func', func), '@fid': nfid}
        if fid in st.frames and '@class' in st.frames[fid]:
            env['@class'] = st.frames[fid]['@class']
        st.frames[nfid] = env

        def level(i, st2):
            if st2.dead:
                return
            if i == len(e.generators):
                if isinstance(e, ast.DictComp):
                    v = mk('tuple', self.ev(e.key, st2, nfid), self.ev(e.value, st2, nfid))
                else:
                    v = self.ev(e.elt, st2, nfid)
                if not st2.dead:
                    once(st2, v, e)
                return
            g = e.generators[i]
            it = first if i == 0 else self.ev(g.iter, st2, nfid)

            def one(st3, v, node):
                self.assign(g.target, v, st3, nfid)
                states = []
                cur = st3
                for cnd in g.ifs:
                    c = self.cond(cnd, cur, nfid)
                    a, b = self.branch(cur, c)
                    if b is not None:
                        states.append(b.fork())
                    if a is None:
                        cur = None
                        break
                    cur = a
                if cur is not None:
                    cur2 = cur.fork() if cur is st3 else cur
                    level(i + 1, cur2)
                    if not cur2.dead:
                        states.append(cur2)
                m = self.merge(states)
                if m is None:
                    st3.dead = True
                else:
                    st3.become(m)
                return NONE
            self.iterate(g, it, st2, nfid, one)
        level(0, st)

    def e_ListComp(self, e, st, fid):
        return self.collect(self.comp_term(e, st, fid, 'list'), st, e, 'list')

    def e_SetComp(self, e, st, fid):
        return self.collect(self.comp_term(e, st, fid, 'set'), st, e, 'set')

    def e_DictComp(self, e, st, fid):
        return self.collect(self.comp_term(e, st, fid, 'dict'), st, e, 'dict')

    def collect(self, it, st, node, kind='list'):
        """list(it) and friends: a new list with the summarised contents."""
        lst = self.newlist((), st, node, kind)

        def once(st2, v, n):
            self.made.setdefault(lst, []).append(v)
            st2.heap[(lst, '[]')] = st2.heap.get((lst, '[]'), ()) + (('one', v, ()),)
            return NONE
        self.iterate(node, it, st, None, once)
        return lst

    # -------------------------------------------------------------- types
    def typeof(self, t, st=None):
        """Exact Class, builtin type name, or None."""
        ty = self.types.get(t)
        if ty is not None:
            return ty
        if t.op == 'new':
            c = t.args[0]
            if c.op == 'cls':
                return c.args[0]
            if c.op == 'builtin':
                return c.args[0]
            return None
        if t.op == 'const':
            return type(t.args[0]).__name__
        if t.op in ('tuple', 'seq'):
            return 'tuple'
        if t.op == 'fmt':
            return 'str'
        if t.op in ('len', 'index') or (t.op == 'call' and t.args[0].op == 'attr' and t.args[0].args[1] == 'index'):
            return 'int'
        if t.op == 'ite':
            a, b = self.typeof(t.args[1], st), self.typeof(t.args[2], st)
            if a is b and isinstance(a, Class):
                return a
            return a if a == b else None
        if t.op == 'entered':
            return self.typeof(t.args[0], st)
        if st is not None:
            best = None
            for f, v in st.facts.items():
                if v and f.op == 'isinstance' and f.args[0] is t and isinstance(f.args[1], tuple) \
                        and len(f.args[1]) == 1 and isinstance(f.args[1][0], Class):
                    c = f.args[1][0]
                    if best is None or best in c.mro():
                        best = c
            if best is not None:
                return best
        return None

    def may_inline(self, func):
        if func.name in self.opaque or func.qualname in self.opaque:
            return False
        if self.inline is not None and not self.inline(func):
            return False
        if not func.module.own and self.inline is None:
            return False
        return self.depth_ok(func)

    def depth_ok(self, func):
        return len(self.stack) < self.max_depth and sum(1 for f in self.stack if f is func) < self.max_recursion

    # -------------------------------------------------------------- attributes
    getattr_hook = None
    strict_none = False     # whether using None as an object is reported as a 'crash'
    on_attr = None          # hook(interp, st, base, name, node) -> term or None

    def getattr(self, base, name, st, node):
        if self.getattr_hook is not None:
            self.getattr_hook(base, name, st, node)
        if self.on_attr is not None:
            r = self.on_attr(self, st, base, name, node)
            if r is not None:
                return r
        if self.unroll_while and base is NONE and not hasattr(None, name):
            return self.crash(st, 'AttributeError', node)
        if self.unroll_while and base.op == 'sl' and name in ('start', 'stop', 'step'):
            return base.args[('start', 'stop', 'step').index(name)]
        if self.strict_none and not hasattr(None, name):
            base = self.present(base, st, node, 'AttributeError')
            if st.dead:
                return UNBOUND
        if base.op == 'ite':
            q = st.query(base.args[0])
            if q is not None:
                return self.getattr(base.args[1] if q else base.args[2], name, st, node)
        if base.op == 'mod':
            r = self.model.resolve_attr(base.args[0], name)
            v = self.from_resolved(r)
            if v is None:
                self.event('no_attribute', (base, name), st, node)
                return mk('undefined', base.args[0].name, name)
            return v
        if base.op == 'ext':
            return mk('ext', base.args[0] + '.' + name)
        if base.op == 'builtin':
            return mk('builtin', base.args[0] + '.' + name)
        if base.op == 'cls':
            return self.class_attr(base.args[0], name, st, node)
        if base.op == 'super':
            after, obj = base.args
            ty = obj.args[0] if obj.op == 'cls' else self.typeof(obj, st)
            if not isinstance(ty, Class):
                ty = after
            m = ty.lookup(name, after=after)
            if m is None:
                self.event('no_attribute', (base, name), st, node)
                return mk('attr', obj, name)
            owner, kind, member = m
            if kind == 'method':
                if member.kind == 'property':
                    return self.call_method(member, obj, (), (), st, node)
                if member.kind == 'staticmethod':
                    return mk('func', member)
                return mk('bound', member, obj)
            if kind == 'builtin':
                return mk('bound_builtin', owner, name, obj)
            return mk('attr', obj, name)
        k = (base, name)
        if k in st.heap:
            v = st.heap[k]
            if v is UNBOUND:
                ty = self.typeof(base, st)
                if isinstance(ty, Class):
                    m = ty.lookup(name)
                    if m and m[1] == 'assign':
                        return self.class_value(ty, name, base, st)
                self.may_raise(st, 'AttributeError', FALSE)
                self.event('deleted_attr', (base, name), st, node)
                return mk('unknown', next(_fresh))
            return v
        if name == '__class__':
            return self.type_of_term(base, st)
        ty = self.typeof(base, st)
        if ty is None and name in self.duck:
            ty = self.duck[name]
        if isinstance(ty, Class):
            m = ty.lookup(name)
            if m is not None:
                owner, kind, member = m
                if kind == 'method':
                    if member.kind == 'property':
                        if self.may_inline(member):
                            return self.call_method(member, base, (), (), st, node)
                        self.event('getprop', (base, name), st, node)
                        return mk('attr', base, name)
                    if member.kind == 'staticmethod':
                        return mk('func', member)
                    if member.kind == 'classmethod':
                        return mk('bound', member, mk('cls', ty))
                    return mk('bound', member, base)
                if kind == 'builtin':
                    return mk('bound_builtin', owner, name, base)
                if kind == 'assign':
                    if base.op == 'new' and k not in st.heap:
                        return self.class_value(ty, name, base, st)
                    if isinstance(member, ast.Name) and member.id in owner.methods:
                        return mk('bound', owner.methods[member.id], base)
                    if isinstance(member, ast.Lambda):
                        return mk('attr', base, name)
                    return mk('attr', base, name)
                if kind == 'class':
                    return mk('cls', member)
            elif base.op == 'new' and base not in self.uninit:
                self.may_raise(st, 'AttributeError', FALSE)
                self.event('unset_attr', (base, name), st, node)
                if st.dead:
                    return UNBOUND
                return mk('unknown', next(_fresh))
        self.may_raise(st, 'AttributeError', mk('has', base, name))
        return mk('attr', base, name)

    def class_value(self, ty, name, base, st):
        """Value of a class-level assignment seen through an instance."""
        owner, kind, expr = ty.lookup(name)
        if name.startswith('space_') or name == '__slots__':
            return mk('attr', base, name)
        if isinstance(expr, ast.Constant):
            return const(expr.value)
        if isinstance(expr, ast.Name) and expr.id in owner.methods:
            return mk('bound', owner.methods[expr.id], base)
        try:
            return self.from_literal(self.model.literal(owner.module, expr, owner))
        except (ValueError, TypeError, RecursionError):
            return mk('attr', mk('cls', owner), name)

    def class_attr(self, cls, name, st, node):
        if name == '__name__':
            return const(cls.name)
        m = cls.lookup(name)
        if m is None:
            if name in ('__module__', '__qualname__', '__dict__', '__mro__', '__doc__', '__subclasses__', '__bases__'):
                return mk('attr', mk('cls', cls), name)
            if '__getattr__' not in cls.methods:
                self.event('no_attribute', (mk('cls', cls), name), st, node)
            return mk('attr', mk('cls', cls), name)
        owner, kind, member = m
        if kind == 'method':
            if member.kind == 'classmethod':
                return mk('bound', member, mk('cls', cls))
            if member.kind == 'property':
                return mk('attr', mk('cls', cls), name)
            return mk('func', member)
        if kind == 'class':
            return mk('cls', member)
        if kind == 'builtin':
            return mk('builtin', '{}.{}'.format(owner, name))
        if isinstance(member, ast.Constant):
            return const(member.value)
        try:
            return self.from_literal(self.model.literal(owner.module, member, owner))
        except (ValueError, TypeError, RecursionError):
            return mk('attr', mk('cls', owner), name)

    def type_of_term(self, t, st):
        ty = self.typeof(t, st)
        if isinstance(ty, Class) and (t.op == 'new' or self.types.get(t) is ty):
            return mk('cls', ty)
        if isinstance(ty, str) and t.op in ('const', 'tuple', 'new'):
            return mk('builtin', ty)
        return mk('type', t)

    def setattr(self, base, name, v, st, node, aug=None):
        if self.strict_none:
            base = self.present(base, st, node, 'AttributeError')
            if st.dead:
                return
        ty = self.typeof(base, st)
        if ty is None and name in self.duck:
            ty = self.duck[name]
        if isinstance(ty, Class):
            s = ty.lookup_setter(name)
            if s is not None:
                if self.may_inline(s):
                    self.call_method(s, base, (v,), (), st, node)
                    return
                self.event('setprop', (base, name, v), st, node)
                return
        self.event('store', (base, name, v), st, node)
        # forget what may be aliased
        for k in [k for k in st.heap if k[1] == name and k[0] is not base]:
            o = k[0]
            if o.op == 'new' or base.op == 'new':
                continue
            if self.distinct(o, base, st):
                continue
            st.heap[k] = mk('phi', (st.heap[k], v)) if st.heap[k] is not v else v
        st.heap[(base, name)] = v

    def distinct(self, a, b, st):
        # elements of different containers / parameters are taken as distinct objects
        return True

    def getitem(self, base, idx, st, node):
        if self.strict_none:
            base = self.present(base, st, node)
            if st.dead:
                return UNBOUND
        if base.op == 'ite':
            q = st.query(base.args[0])
            if q is not None:
                return self.getitem(base.args[1] if q else base.args[2], idx, st, node)
            if base.args[1].op == 'tuple' and base.args[2].op == 'tuple':
                return ite(base.args[0], self.getitem(base.args[1], idx, st, node),
                           self.getitem(base.args[2], idx, st, node))
        if idx.op == 'sl':
            if base.op == 'tuple' and all(is_const(x) for x in idx.args):
                return mk('tuple', *base.args[slice(*(x.args[0] for x in idx.args))])
            segs = st.heap.get((base, '[]'))
            if base.op == 'new' and segs is not None and all(is_const(x) for x in idx.args) \
                    and all(s[0] == 'one' and not s[-1] for s in segs):
                return self.newlist(segs[slice(*(x.args[0] for x in idx.args))], st, node)
            ty = self.typeof(base, st)
            if isinstance(ty, Class):
                m = ty.lookup('__getitem__')
                if m and m[1] == 'method' and self.may_inline(m[2]):
                    return self.call_method(m[2], base, (idx,), (), st, node)
            lo, hi, step = idx.args
            if base.op == 'new' and segs is not None and lo is NONE and hi is NONE and step is NONE:
                return self.newlist(segs, st, node)
            return mk('slice', base, lo, hi, step, st.vers.get(base, 0))
        if base.op == 'tuple' and is_const(idx) and isinstance(idx.args[0], int) \
                and -len(base.args) <= idx.args[0] < len(base.args):
            return base.args[idx.args[0]]
        segs = st.heap.get((base, '[]'))
        if base.op == 'new' and segs is not None and is_const(idx):
            kind = base.args[0].args[0] if base.args[0].op == 'builtin' else ''
            if base.args[0].op == 'cls' and base.args[0].args[0].issub('list'):
                m = base.args[0].args[0].lookup('__getitem__')
                if not m or m[1] == 'builtin':
                    kind = 'list'
            if kind == 'list' and isinstance(idx.args[0], int) and all(s[0] == 'one' and not s[-1] for s in segs) \
                    and -len(segs) <= idx.args[0] < len(segs):
                return segs[idx.args[0]][1]
            if kind == 'list' and idx.args[0] == -1 and segs and segs[-1][0] == 'one' and not segs[-1][-1]:
                return segs[-1][1]
            if kind == 'dict' and all(s[0] == 'one' and s[1].op == 'tuple' and is_const(s[1].args[0])
                                      and not s[-1] for s in segs):
                for s in segs:
                    if s[1].args[0] is idx:
                        return s[1].args[1]
                if self.unroll_while:
                    self.do_raise(st, mk('exc', 'KeyError'))
                    return UNBOUND
            if self.unroll_while and kind == 'list' and isinstance(idx.args[0], int) and exact(segs):
                self.do_raise(st, mk('exc', 'IndexError'))
                return UNBOUND
        ty = self.typeof(base, st)
        if isinstance(ty, Class):
            m = ty.lookup('__getitem__')
            if m and m[1] == 'method' and self.may_inline(m[2]):
                return self.call_method(m[2], base, (idx,), (), st, node)
        self.may_raise(st, 'LookupError', mk('ok', 'item', base, idx), node)
        self.event('getitem', (base, idx), st, node)
        ver = st.vers.get(base, 0)
        return mk('item', base, idx) if not ver else mk('item', base, idx, ver)

    def setitem(self, base, idx, v, st, node):
        if self.strict_none:
            base = self.present(base, st, node)
            if st.dead:
                return
        ty = self.typeof(base, st)
        if isinstance(ty, Class):
            m = ty.lookup('__setitem__')
            if m and m[1] == 'method' and self.may_inline(m[2]):
                self.call_method(m[2], base, (idx, v), (), st, node)
                return
        self.event('setitem', (base, idx, v), st, node)
        self.touch(base, st)
        k = (base, '[]')
        if k in st.heap:
            kind = base.args[0].args[0] if base.op == 'new' and base.args[0].op == 'builtin' else ''
            segs = st.heap[k]
            if kind == 'dict':
                segs = tuple(s for s in segs if not (s[0] == 'one' and s[1].op == 'tuple' and s[1].args[0] is idx))
                st.heap[k] = segs + (('one', mk('tuple', idx, v), ()),)
            elif kind == 'list' and is_const(idx) and isinstance(idx.args[0], int) \
                    and all(s[0] == 'one' and not s[-1] for s in segs) and -len(segs) <= idx.args[0] < len(segs):
                l = list(segs)
                l[idx.args[0]] = ('one', v, ())
                st.heap[k] = tuple(l)
            elif kind == 'list' and self.unroll_while:
                self.set_segments(base, idx, v, st)
            else:
                st.heap[k] = (('some', mk('unknown', next(_fresh)), ()),)

    def set_segments(self, base, idx, v, st):
        """list.__setitem__ on a list of which the contents are known."""
        k = (base, '[]')
        segs = st.heap[k]
        plain = all(s[0] == 'one' and not s[-1] for s in segs)
        if plain and idx.op == 'sl' and all(is_const(x) for x in idx.args):
            new = st.heap.get((v, '[]')) if v.op == 'new' else tuple(('one', x, ()) for x in v.args) if v.op == 'tuple' else None
            if new is not None and all(s[0] == 'one' and not s[-1] for s in new):
                l = list(segs)
                l[slice(*(x.args[0] for x in idx.args))] = new
                st.heap[k] = tuple(l)
                return
        elif plain and is_const(idx) and isinstance(idx.args[0], int) and -len(segs) <= idx.args[0] < len(segs):
            l = list(segs)
            l[idx.args[0]] = ('one', v, ())
            st.heap[k] = tuple(l)
            return
        st.heap[k] = (('some', mk('unknown', next(_fresh)), ()),)

    def touch(self, base, st):
        st.vers[base] = st.vers.get(base, 0) + 1

    # -------------------------------------------------------------- calls
    def e_Call(self, e, st, fid):
        # super()
        if isinstance(e.func, ast.Name) and e.func.id == 'super' and len(e.args) == 2 and 'super' not in st.frames[fid]:
            k, obj = (self.ev(x, st, fid) for x in e.args)
            if k.op == 'cls':
                return mk('super', k.args[0], obj)
        elif isinstance(e.func, ast.Name) and e.func.id == 'super' and 'super' not in st.frames[fid]:
            f = st.frames[fid]
            while f is not None and '@class' not in f:
                f = st.frames.get(f.get('@outer'))
            if f is not None:
                func = f['@func'].args[0]
                # find the method frame (closures inside methods)
                g = f
                while g is not None and g.get('@outer') is not None:
                    g = st.frames.get(g['@outer'])
                names = g['@func'].args[0].params() if g else []
                obj = g.get(names[0]) if names else None
                if obj is not None:
                    return mk('super', f['@class'].args[0], obj)
        if isinstance(e.func, ast.Attribute):
            base = self.ev(e.func.value, st, fid)
            if st.dead:
                return UNBOUND
            fn = self.getattr_call(base, e.func.attr, st, e)
        else:
            fn = self.ev(e.func, st, fid)
        if st.dead:
            return UNBOUND
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value, st, fid)
                if self.strict_none and not st.dead:
                    v = self.present(v, st, e)
                    if st.dead:
                        return UNBOUND
                if v.op == 'tuple':
                    args.extend(v.args)
                else:
                    segs = st.heap.get((v, '[]'))
                    if v.op == 'new' and segs is not None and all(s[0] == 'one' and not s[-1] for s in segs):
                        args.extend(s[1] for s in segs)
                    else:
                        args.append(mk('star', v))
            else:
                args.append(self.ev(a, st, fid))
            if st.dead:
                return UNBOUND
        kw = []
        for k in e.keywords:
            v = self.ev(k.value, st, fid)
            if st.dead:
                return UNBOUND
            kw.append((k.arg or '**', v))
        return self.call(fn, tuple(args), tuple(kw), st, e)

    def getattr_call(self, base, name, st, node):
        """Attribute for a call: keep unresolved ones as attr terms."""
        return self.getattr(base, name, st, node)

    def call(self, fn, args, kw, st, node):
        self.tick()
        if self.on_call is not None:
            r = self.on_call(self, st, fn, args, kw, node)
            if r is not None:
                return r
        if fn.op == 'ite':
            q = st.query(fn.args[0])
            if q is not None:
                return self.call(fn.args[1] if q else fn.args[2], args, kw, st, node)
            a, b = self.branch(st, fn.args[0])
            x = self.call(fn.args[1], args, kw, a, node)
            y = self.call(fn.args[2], args, kw, b, node)
            m, v = self.merge_vals([(a, x), (b, y)])
            if m is None:
                st.dead = True
                return UNBOUND
            st.become(m)
            return v
        if self.strict_none:
            if fn is NONE:
                return self.crash(st, 'TypeError', node)
            if fn.op == 'builtin' and fn.args[0] in ('len', 'int', 'float', 'iter', 'next', 'sum', 'max', 'min', 'sorted', 'reversed',
                                                     'enumerate', 'list', 'tuple', 'set', 'ord', 'abs') and args and args[0].op != 'star':
                x = self.present(args[0], st, node)
                if st.dead:
                    return UNBOUND
                args = (x,) + tuple(args[1:])
        if fn.op == 'partial':
            return self.call(fn.args[0], fn.args[1] + args, fn.args[2] + kw, st, node)
        if fn.op == 'bound':
            func, obj = fn.args
            self.event('call', (fn, args, kw), st, node)
            if self.may_inline(func):
                return self.call_method(func, obj, args, kw, st, node, quiet=True)
            return self.opaque_call(fn, args, kw, st, node, ev=False)
        if fn.op == 'func':
            func = fn.args[0]
            self.event('call', (fn, args, kw), st, node)
            if self.may_inline(func):
                return self.call_plain(func, args, kw, st, node, ())
            return self.opaque_call(fn, args, kw, st, node, ev=False)
        if fn.op == 'closure':
            func, fid, dfl, kdfl = fn.args
            if self.depth_ok(func) and fid in st.frames:
                env = self.bind(func, args, kw, st, node, dfl, kdfl)
                if env is not None:
                    env['@outer'] = fid
                    outer = st.frames[fid]
                    if '@class' in outer:
                        env['@class'] = outer['@class']
                    return self.enter(func, env, st, node)
            return self.opaque_call(fn, args, kw, st, node)
        if fn.op == 'cls':
            return self.construct(fn.args[0], args, kw, st, node, fn)
        if fn.op == 'builtin':
            r = self.builtin(fn.args[0], args, kw, st, node)
            if r is not None:
                return r
            return self.opaque_call(fn, args, kw, st, node)
        if fn.op == 'bound_builtin':
            owner, name, obj = fn.args
            r = self.builtin_method(obj, name, args, kw, st, node, raw=True, owner=owner)
            if r is not None:
                return r
            return self.opaque_call(mk('attr', obj, name), args, kw, st, node)
        if fn.op == 'ext':
            r = self.external(fn.args[0], args, kw, st, node)
            if r is not None:
                return r
            return self.opaque_call(fn, args, kw, st, node)
        if fn.op == 'attr':
            base, name = fn.args[:2]
            if base.op == 'ite':
                pass
            if self.inline_unknown is not None:
                f = self.inline_unknown(self, st, base, name)
                if f is not None and self.may_inline(f):
                    self.event('call', (fn, args, kw), st, node)
                    return self.call_method(f, base, args, kw, st, node, quiet=True)
            r = self.builtin_method(base, name, args, kw, st, node)
            if r is not None:
                return r
        if fn.op == 'new':
            ty = self.typeof(fn, st)
            if isinstance(ty, Class):
                m = ty.lookup('__call__')
                if m and m[1] == 'method' and self.may_inline(m[2]):
                    return self.call_method(m[2], fn, args, kw, st, node)
        return self.opaque_call(fn, args, kw, st, node)

    def opaque_call(self, fn, args, kw, st, node, ev=True):
        if ev:
            self.event('call', (fn, args, kw), st, node)
        t = mk('call', fn, args, kw, self.call_ver(fn, args, st, node))
        self.may_raise(st, 'Exception', mk('ok', 'call', t), node)
        return t

    def call_ver(self, fn, args, st, node):
        """Distinguishes two executions of an opaque call."""
        base = fn.args[0] if fn.op == 'attr' else (fn.args[1] if fn.op == 'bound' else None)
        if fn.op == 'ext' or (fn.op == 'builtin' and fn.args[0] in PURE_BUILTINS):
            return 0
        return self.site(node)

    def bind(self, func, args, kw, st, node, dfl=None, kdfl=None):
        """Bind arguments; returns env or None when not resolvable."""
        a = func.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        env = {'@func': mk('func', func)}
        if func.cls is not None and func.outer is None:
            env['@class'] = mk('cls', func.cls)
        pos = list(args)
        stars = [i for i, x in enumerate(pos) if x.op == 'star']
        rest = []
        if stars:
            i = stars[0]
            if i < len(names) and not a.vararg:
                # *args spreading over parameters
                src = pos[i].args[0]
                k = 0
                new = pos[:i]
                while len(new) < len(names) and names[len(new)] not in dict(kw):
                    new.append(mk('item', src, const(k)))
                    k += 1
                pos = new
            elif i < len(names):
                src = pos[i].args[0]
                tail = pos[i + 1:]
                k = 0
                new = pos[:i]
                while len(new) < len(names) and names[len(new)] not in dict(kw):
                    new.append(mk('item', src, const(k)))
                    k += 1
                rest = [mk('star', mk('slice', src, const(k), NONE, NONE))] + tail
                pos = new
        for i, n in enumerate(names):
            if i < len(pos):
                env[n] = pos[i]
        extra = pos[len(names):] + rest
        if a.vararg:
            if any(x.op == 'star' for x in extra):
                if len(extra) == 1:
                    env[a.vararg.arg] = self.as_tuple(extra[0].args[0], st, node)
                else:
                    env[a.vararg.arg] = mk('seq', 'tuple', *extra)
            else:
                env[a.vararg.arg] = mk('tuple', *extra)
        elif extra:
            self.event('bad_arity', (mk('func', func), len(pos)), st, node)
        kwrest = []
        allowed = set(names) | {x.arg for x in a.kwonlyargs}
        starkw = False
        for k, v in kw:
            if k == '**':
                starkw = True
                kwrest.append((k, v))
            elif k in allowed:
                env[k] = v
            elif a.kwarg:
                kwrest.append((k, v))
            else:
                self.event('bad_keyword', (mk('func', func), k), st, node)
        if a.kwarg:
            if len(kwrest) == 1 and kwrest[0][0] == '**':
                env[a.kwarg.arg] = kwrest[0][1]
            elif not kwrest:
                env[a.kwarg.arg] = mk('kwdict')
            else:
                env[a.kwarg.arg] = mk('kwdict', tuple(kwrest))
        nd = len(a.defaults)
        for i, n in enumerate(names):
            if n not in env:
                j = i - (len(names) - nd)
                if j >= 0:
                    env[n] = dfl[j] if dfl is not None else self.default(func, a.defaults[j])
                elif starkw:
                    env[n] = mk('unknown', next(_fresh))
                else:
                    self.event('missing_arg', (mk('func', func), n), st, node)
                    env[n] = mk('unknown', next(_fresh))
        for i, x in enumerate(a.kwonlyargs):
            if x.arg not in env:
                if a.kw_defaults[i] is not None:
                    env[x.arg] = kdfl[i] if kdfl is not None else self.default(func, a.kw_defaults[i])
                elif starkw:
                    env[x.arg] = mk('unknown', next(_fresh))
                else:
                    self.event('missing_arg', (mk('func', func), x.arg), st, node)
                    env[x.arg] = mk('unknown', next(_fresh))
        return env

    def default(self, func, expr):
        if isinstance(expr, ast.Constant):
            return const(expr.value)
        try:
            return self.from_literal(self.model.literal(func.module, expr, func.cls))
        except (ValueError, TypeError, RecursionError):
            return mk('default', func, ast.unparse(expr))

    def as_tuple(self, v, st, node):
        if v.op in ('tuple', 'param', 'seq'):
            return v
        segs = st.heap.get((v, '[]'))
        if v.op == 'new' and segs is not None and all(s[0] == 'one' and not s[-1] for s in segs):
            return mk('tuple', *(s[1] for s in segs))
        if v.op in ('lazy', 'gen', 'ite', 'chain'):
            l = self.collect(v, st, node, 'list')
            segs = st.heap.get((l, '[]'))
            if segs is not None and all(s[0] == 'one' and not s[-1] for s in segs):
                return mk('tuple', *(s[1] for s in segs))
            return l
        return mk('tupleof', v)

    def call_method(self, func, obj, args, kw, st, node, quiet=False):
        if func.kind == 'staticmethod':
            return self.call_plain(func, args, kw, st, node, ())
        return self.call_plain(func, (obj,) + tuple(args), kw, st, node, ())

    def call_plain(self, func, args, kw, st, node, _):
        env = self.bind(func, args, kw, st, node)
        return self.enter(func, env, st, node)

    def enter(self, func, env, st, node):
        if func.contextmanager or func.is_generator:
            key = len(self.genenv)
            self.genenv[key] = env
            return mk('cm' if func.contextmanager else 'gen', func, key)
        return self.call_func(func, env, st, node)

    def raw_new(self, c, st, node):
        """The object made by ``object.__new__(c)``."""
        obj = mk('new', c, self.site(node))
        if self.fresh_lists and c.op == 'cls' and c.args[0].issub('list'):
            st.heap[obj, '[]'] = ()
        return obj

    def construct(self, cls, args, kw, st, node, fn):
        self.event('call', (fn, args, kw), st, node)
        obj = mk('new', mk('cls', cls), self.site(node))
        # fresh object: forget fields of the previous iteration
        for k in [k for k in st.heap if k[0] is obj]:
            del st.heap[k]
        if self.fresh_lists and cls.issub('list'):
            st.heap[obj, '[]'] = ()
        if not cls.module.own:
            self.may_raise(st, 'Exception', mk('ok', 'call', obj), node)
            self.event('new', (obj, args, kw), st, node)
            return obj
        self.event('new', (obj, args, kw), st, node)
        new = cls.lookup('__new__')
        if new and new[1] == 'method' and self.may_inline(new[2]):
            r = self.call_plain(new[2], (mk('cls', cls),) + tuple(args), kw, st, node, ())
            if st.dead:
                return UNBOUND
            # object.__new__ inside yields rawnew
            if r.op == 'rawnew':
                pass
            elif r.op == 'new':
                self.became[obj] = r
                obj = r
        init = cls.lookup('__init__')
        if init and init[1] == 'method':
            if self.may_inline(init[2]):
                self.call_method(init[2], obj, args, kw, st, node)
            else:
                self.uninit.add(obj)
            if st.dead:
                return UNBOUND
        return obj

    # ---- builtins
    def isinstance_(self, x, c, st):
        classes = []

        def rec(t):
            if t.op == 'tuple':
                return all(rec(y) for y in t.args)
            if t.op == 'cls':
                classes.append(t.args[0])
                return True
            if t.op == 'builtin':
                classes.append(t.args[0])
                return True
            if t.op == 'ext':
                classes.append('ext:' + t.args[0])
                return True
            return False
        if not rec(c):
            return mk('isinstance', x, c)
        ty = self.typeof(x) if x.op != 'param' or x in self.types else None
        if isinstance(ty, (Class, str)) and ty != 'NoneType':
            if x.op in ('new', 'const', 'tuple', 'len', 'index', 'call') or x in self.types:
                if any(_issub(ty, k) for k in classes):
                    return TRUE
                if x.op in ('new', 'const', 'tuple', 'len', 'index', 'call'):
                    return FALSE
        if x.op == 'cls':
            # a class is an instance of type, and not of a class that is no metaclass
            if 'type' in classes or 'object' in classes:
                return TRUE
            if all(isinstance(k, Class) and not k.issub('type') or k in ('str', 'tuple', 'list', 'dict', 'int') for k in classes):
                return FALSE
        if x is NONE:
            return FALSE
        if x.op == 'sl':
            return TRUE if 'slice' in classes or 'object' in classes else FALSE
        if x.op == 'ite':
            return ite(x.args[0], self.isinstance_(x.args[1], c, st), self.isinstance_(x.args[2], c, st))
        return mk('isinstance', x, tuple(classes))

    def builtin(self, name, args, kw, st, node):
        n = len(args)
        if name == 'isinstance' and n == 2:
            return self.isinstance_(args[0], args[1], st)
        if name == 'len' and n == 1:
            x = args[0]
            if x.op == 'tuple':
                return const(len(x.args))
            if is_const(x) and isinstance(x.args[0], (str, bytes)):
                return const(len(x.args[0]))
            segs = st.heap.get((x, '[]'))
            if x.op == 'new' and segs is not None and all(s[0] == 'one' and not s[-1] for s in segs):
                return const(len(segs))
            ty = self.typeof(x, st)
            if isinstance(ty, Class):
                m = ty.lookup('__len__')
                if m and m[1] == 'method' and self.may_inline(m[2]):
                    return self.call_method(m[2], x, (), (), st, node)
            v = st.vers.get(x, 0)
            return mk('len', x, v)
        if name in ('tuple', 'list', 'set', 'frozenset') and n <= 1 and not kw:
            if n == 0:
                if name == 'tuple':
                    return mk('tuple')
                return self.newlist((), st, node, name)
            x = args[0]
            if name == 'tuple':
                if x.op in ('lazy', 'gen', 'chain'):
                    return self.as_tuple(x, st, node)
                if x.op == 'tuple':
                    return x
                if x.op != 'new':
                    self.event('consume', (x,), st, node)
                    return mk('tupleof', x, st.vers.get(x, 0))
                return self.as_tuple(x, st, node)
            if x.op in ('lazy', 'gen', 'chain'):
                return self.collect(x, st, node, name)
            if x.op not in ('new', 'tuple', 'seq'):
                self.event('consume', (x,), st, node)
            return self.newlist(self.segments(x, st), st, node, name)
        if name == 'dict':
            segs = []
            if n:
                segs.append(('some', args[0], ()))
            for k, v in kw:
                segs.append(('one', mk('tuple', const(k), v), ()))
            return self.newlist(segs, st, node, 'dict')
        if name == 'iter' and n == 1:
            x = args[0]
            if x.op in ('gen', 'lazy', 'iter'):
                return x
            if self.unroll_while:
                return self.new_iter(x, st, node)
            return mk('iter', x, self.site(node))
        if name == 'reversed' and n == 1:
            x = args[0]
            if self.unroll_while and x is NONE:
                return self.crash(st, 'TypeError', node)
            if self.unroll_while and (x.op == 'tuple' or x.op == 'new' and exact(st.heap.get((x, '[]'), NOSEGS))):
                return self.new_iter(self.newlist(self.segments(x, st)[::-1], st, node), st, node)
            if x.op == 'tuple':
                return mk('tuple', *x.args[::-1])
            segs = st.heap.get((x, '[]'))
            if x.op == 'new' and segs is not None and all(s[0] == 'one' and not s[-1] for s in segs):
                return mk('tuple', *(s[1] for s in reversed(segs)))
            return mk('reversed', x)
        if name == 'enumerate' and n >= 1:
            start = args[1] if n > 1 else dict(kw).get('start', ZERO)
            return mk('lazy', 'enumerate', args[0], start)
        if name == 'zip' and not any(a.op == 'star' for a in args):
            return mk('lazy', 'zip', tuple(args))
        if name == 'map' and n == 2:
            return mk('lazy', 'map', args[0], args[1])
        if name == 'filter' and n == 2:
            return mk('lazy', 'filter', args[0], args[1])
        if name == 'getattr' and n >= 2 and is_const(args[1]):
            nm = args[1].args[0]
            if n == 2:
                return self.getattr(args[0], nm, st, node)
            return self.getattr_default(args[0], nm, args[2], st, node)
        if name == 'hasattr' and n == 2 and is_const(args[1]):
            return self.has(args[0], args[1].args[0], st)
        if name == 'setattr' and n == 3:
            if is_const(args[1]):
                self.setattr(args[0], args[1].args[0], args[2], st, node)
            else:
                self.event('setattr_dyn', args, st, node)
            return NONE
        if name == 'delattr' and n == 2:
            self.event('delattr', (args[0], args[1].args[0] if is_const(args[1]) else args[1]), st, node)
            return NONE
        if name == 'type' and n == 1:
            return self.type_of_term(args[0], st)
        if name == 'issubclass' and n == 2:
            return mk('issubclass', *args)
        if name == 'bool' and n == 1:
            return self.truth_now(args[0], st)
        if name in ('any', 'all') and n == 1:
            return self.any_all(name, args[0], st, node)
        if name == 'sum' and n >= 1 and args[0].op in ('lazy', 'gen'):
            l = self.collect(args[0], st, node)
            segs = st.heap.get((l, '[]'), NOSEGS)
            if self.unroll_while and exact(segs):
                t = args[1] if n > 1 else ZERO
                for x in segs:
                    t = self.binop('+', t, x[1], st, node)
                return t
            return mk('sum', tuple(st.heap.get((l, '[]'), ())))
        if name in ('max', 'min', 'abs', 'divmod', 'int', 'str', 'repr', 'float', 'sorted', 'ord', 'chr',
                    'round', 'hash', 'id', 'callable', 'range', 'slice', 'format'):
            if name == 'slice':
                a = list(args) + [NONE] * 3
                return mk('sl', *((NONE, a[0], NONE) if n == 1 else a[:3]))
            if name == 'divmod' and n == 2:
                return mk('tuple', self.binop('//', args[0], args[1], st, node),
                          self.binop('%', args[0], args[1], st, node))
            if name in ('int', 'float'):
                self.may_raise(st, 'ValueError', mk('ok', name, *args), node)
            if name == 'bool':
                return truth(args[0])
            if name == 'str' and n == 1 and self.typeof(args[0], st) == 'str':
                return args[0]
            if name == 'sorted' and n >= 1 and args[0].op in ('lazy', 'gen'):
                l = self.collect(args[0], st, node)
                return mk('sortedof', tuple(st.heap.get((l, '[]'), ())), tuple(kw))
            if n and args[0].op in ('lazy', 'gen') and name in ('max', 'min'):
                l = self.collect(args[0], st, node)
                return mk(name + 'of', tuple(st.heap.get((l, '[]'), ())), tuple(kw))
            if self.unroll_while and name in ('max', 'min'):
                t = self.extreme(name, args, dict(kw), st, node)
                if t is not None:
                    return t
            self.event('call', (mk('builtin', name), args, kw), st, node)
            return mk('call', mk('builtin', name), args, tuple(kw), 0)
        if name == 'next' and n >= 1:
            it = args[0]
            ty = self.typeof(it, st)
            if isinstance(ty, Class):
                m = ty.lookup('__next__')
                if m and m[1] == 'method' and self.may_inline(m[2]) and n == 1:
                    return self.call_method(m[2], it, (), (), st, node)
            self.event('next', (it,), st, node)
            if self.unroll_while and it.op == 'iter':
                segs = st.heap.get((it.args[0], '[]'), NOSEGS)
                pos = st.heap.get((it, 'pos'))
                if exact(segs) and pos is not None and is_const(pos):
                    i = pos.args[0]
                    if i < len(segs):
                        st.heap[it, 'pos'] = const(i + 1)
                        return segs[i][1]
                    if n > 1:
                        return args[1]
            self.touch(it, st)
            fresh = st.vers[it] if st.vers[it] == 1 else None
            el = mk('next', it, st.vers[it])
            if it.op in ('lazy', 'gen'):
                first = []
                probe = st.fork()
                l = self.collect(it, probe, node)
                segs = probe.heap.get((l, '[]'), ())
                el = mk('firstof', tuple(segs))
                if st.vers[it] == fresh and exact(segs):
                    if segs:
                        return segs[0][1]
                    elif n > 1:
                        return args[1]
            if n > 1:
                return ite(mk('has_next', it, st.vers[it]), el, args[1])
            self.may_raise(st, 'StopIteration', mk('ok', 'next', it, st.vers[it]), node)
            return el
        if name == 'print':
            self.event('call', (mk('builtin', name), args, kw), st, node)
            return NONE
        if name in ('object.__new__',) or name.endswith('.__new__'):
            c = args[0]
            self.event('rawnew', (c,), st, node)
            return self.raw_new(c, st, node)
        if '.' in name:
            cls, _, meth = name.partition('.')
            if cls in ('list', 'dict', 'set', 'str', 'tuple', 'object') and args:
                return self.builtin_method(args[0], meth, args[1:], kw, st, node, raw=True, owner=cls)
        if name in BUILTIN_TYPES and ('Exception' in _bmro(name) or name == 'BaseException'):
            return mk('exc', name, *args)
        return None

    def any_all(self, name, it, st, node):
        l = self.collect(it, st, node)
        segs = st.heap.get((l, '[]'), ())
        if all(s[0] == 'one' and not s[-1] for s in segs):
            r = FALSE if name == 'any' else TRUE
            for s in segs:
                c = truth(s[1])
                r = mk_or(r, c) if name == 'any' else mk_and(r, c)
            return r
        return mk('choice', name, tuple(segs))

    def has(self, base, name, st):
        if (base, name) in st.heap:
            v = st.heap[(base, name)]
            if v is UNBOUND:
                return FALSE
            if v.op in ('ite',):
                bad = [1 for x, _ in leaves(v) if x is UNBOUND]
                if not bad:
                    return TRUE
                if v.args[1] is UNBOUND:
                    return neg(v.args[0])
                if v.args[2] is UNBOUND:
                    return v.args[0]
                return mk('has', base, name)
            return TRUE
        ty = self.typeof(base, st)
        if isinstance(ty, Class):
            m = ty.lookup(name)
            if m is not None:
                return TRUE
            if base.op == 'new':
                return FALSE
        return mk('has', base, name)

    def getattr_default(self, base, name, default, st, node):
        h = self.has(base, name, st)
        q = st.query(h)
        if q is True or h is TRUE:
            return self.getattr(base, name, st, node)
        if q is False or h is FALSE:
            return default
        a, b = self.branch(st, h)
        v = self.getattr(base, name, a, node)
        m, r = self._merge([(a, v), (b, default)])
        st.become(m)
        return r

    def extreme(self, name, args, kw, st, node):
        """max() or min() of known values with constant keys, None if not known."""
        if len(args) == 1:
            a = args[0]
            segs = tuple(('one', x, ()) for x in a.args) if a.op == 'tuple' else st.heap.get((a, '[]'), NOSEGS)
            if not exact(segs):
                return None
            vals = [x[1] for x in segs]
        else:
            vals = list(args)
        if not vals:
            return kw.get('default')
        key = kw.get('key', NONE)
        keys = vals if key is NONE else [self.call(key, (v,), (), st, node) for v in vals]
        if st.dead:
            return None
        if not all(is_const(k) or k.op == 'tuple' and all(is_const(x) for x in k.args) for k in keys):
            if len(args) == 1 and key is NONE:
                return mk(name + 'of', tuple(('one', x, ()) for x in vals), tuple(kw.items()))
            return None
        py = [k.args[0] if is_const(k) else tuple(x.args[0] for x in k.args) for k in keys]
        try:
            best = (max if name == 'max' else min)(range(len(py)), key=lambda i: py[i])
        except TypeError:
            return None
        return vals[best]

    def mutate(self, obj, name, args, st, node, raw=False):
        self.event('mutate', (obj, name, args), st, node)
        self.touch(obj, st)
        k = (obj, '[]')
        if k not in st.heap and name == 'extend' and args and args[0].op not in ('new', 'tuple', 'seq', 'gen', 'lazy', 'chain'):
            self.event('consume', (args[0],), st, node)
        if k in st.heap:
            segs = st.heap[k]
            if name in ('append', 'add') and len(args) == 1:
                st.heap[k] = segs + (('one', args[0], ()),)
            elif name == 'extend' and len(args) == 1:
                src = args[0]
                if src.op not in ('new', 'tuple', 'seq', 'gen', 'lazy', 'chain'):
                    self.event('consume', (src,), st, node)
                if src.op in ('gen', 'lazy', 'chain'):
                    l = self.collect(src, st, node)
                    new = list(st.heap.get((l, '[]'), ()))
                else:
                    new = self.segments(src, st)
                st.heap[k] = st.heap[k] + tuple(new)
            elif name == 'update' and obj.op == 'new' and obj.args[0].args[0] == 'set':
                for src in args:
                    if src.op in ('gen', 'lazy', 'chain'):
                        new = st.heap.get((self.collect(src, st, node), '[]'), ())
                    else:
                        new = self.segments(src, st)
                    st.heap[k] = st.heap[k] + tuple(new)
            elif name == 'clear':
                st.heap[k] = ()
            elif name == 'reverse' and all(s[0] == 'one' and not s[-1] for s in segs):
                st.heap[k] = segs[::-1]
            elif name == 'pop' and not args and segs and segs[-1][0] == 'one' and not segs[-1][-1]:
                st.heap[k] = segs[:-1]
                return segs[-1][1]
            elif name == 'pop' and len(args) == 1 and args[0] is ZERO and segs and segs[0][0] == 'one' and not segs[0][-1]:
                st.heap[k] = segs[1:]
                return segs[0][1]
            elif name in ('sort',):
                pass
            elif name == 'insert' and len(args) == 2 and is_const(args[0]) and isinstance(args[0].args[0], int) and exact(segs):
                l = list(segs)
                l.insert(args[0].args[0], ('one', args[1], ()))
                st.heap[k] = tuple(l)
            elif name == 'remove' and len(args) == 1 and position(segs, args[0]) is not None:
                i = position(segs, args[0])
                st.heap[k] = segs[:i] + segs[i+1:]
            else:
                st.heap[k] = (('some', mk('unknown', next(_fresh)), ()),)
        return None

    def builtin_method(self, obj, name, args, kw, st, node, raw=False, owner=None):
        """Methods of builtin containers and strings; None if unknown."""
        if is_const(obj) and isinstance(obj.args[0], str) and name in PURE_STR and not kw \
                and all(is_const(a) for a in args):
            try:
                v = getattr(obj.args[0], name)(*(a.args[0] for a in args))
            except Exception:
                pass
            else:
                return mk('tuple', *(const(x) for x in v)) if isinstance(v, tuple) else const(v)
        if name == 'join' and self.unroll_while and is_const(obj) and len(args) == 1 and not kw:
            # the text of known pieces
            l = args[0]
            if l.op in ('lazy', 'gen'):
                l = self.collect(l, st, node)
                if st.dead:
                    return UNBOUND
            segs = tuple(('one', a, ()) for a in l.args) if l.op == 'tuple' else st.heap.get((l, '[]'))
            if segs is not None and exact(segs):
                vals = [s[1] for s in segs]
                if all(is_const(v) and isinstance(v.args[0], str) for v in vals):
                    return const(obj.args[0].join(v.args[0] for v in vals))
                return mk('joined', obj, tuple(vals))
        if name == '__init__':
            return NONE
        if name == '__new__':
            c = args[0] if args else obj
            self.event('rawnew', (c,), st, node)
            return self.raw_new(c, st, node)
        if name == '__init_subclass__':
            return NONE
        if name in ('__setattr__',) and len(args) == 2 and is_const(args[0]):
            self.setattr(obj, args[0].args[0], args[1], st, node)
            return NONE
        if name in ('__setitem__',):
            self.event('setitem', (obj,) + tuple(args), st, node)
            self.touch(obj, st)
            if (obj, '[]') in st.heap and len(args) == 2:
                self.set_segments(obj, args[0], args[1], st)
            return NONE
        if name in ('__delitem__',):
            self.event('delitem', (obj,) + tuple(args), st, node)
            self.touch(obj, st)
            return NONE
        if name == '__getitem__':
            return mk('item', obj, args[0])
        if name == '__iter__':
            return mk('iter', obj, self.site(node))
        if name == 'index' and len(args) == 1 and (obj, '[]') in st.heap and position(st.heap[(obj, '[]')], args[0]) is not None:
            return const(position(st.heap[(obj, '[]')], args[0]))
        if name == 'indices' and len(args) == 1 and self.unroll_while and obj.op == 'sl' and all(is_const(x) for x in obj.args + (args[0],)):
            return mk('tuple', *map(const, slice(*(x.args[0] for x in obj.args)).indices(args[0].args[0])))
        if name == 'index' and len(args) == 1 and self.unroll_while and obj.op in ('new', 'tuple') and (args[0].op == 'new' or is_const(args[0])):
            items = self.known_items(obj, st)
            if items is not None and all(x.op == args[0].op for x in items):
                if args[0] in items:
                    return const(items.index(args[0]))
                return self.crash(st, 'ValueError', node)
        if name in MUTATORS and (raw or not isinstance(self.typeof(obj, st), Class)):
            there = name == 'remove' and len(args) == 1 and (obj, '[]') in st.heap and position(st.heap[(obj, '[]')], args[0]) is not None
            if name == 'pop' and self.unroll_while and (not args or args[0] is ZERO) and obj.op == 'new' \
                    and exact(st.heap.get((obj, '[]'), NOSEGS)) and obj.args[0] in (mk('builtin', 'list'), mk('ext', 'collections.deque')):
                if not st.heap[obj, '[]']:
                    self.do_raise(st, mk('exc', 'IndexError'))
                    return UNBOUND
                there = True
            if name in ('remove', 'pop') and not there and not (name == 'pop' and (len(args) > 1)):
                self.may_raise(st, 'ValueError' if name == 'remove' else 'LookupError',
                               mk('ok', name, obj, args, st.vers.get(obj, 0)), node)
                if st.dead:
                    return UNBOUND
            r = self.mutate(obj, name, args, st, node, raw=raw)
            if r is not None:
                return r
            if name in ('pop', 'popitem', 'popleft', 'setdefault', 'take'):
                self.event('call', (mk('attr', obj, name), args, kw), st, node)
                return mk('popped', obj, name, args, st.vers.get(obj, 0))
            return NONE
        if name == 'index':
            self.may_raise(st, 'ValueError', mk('ok', 'index', obj, args, st.vers.get(obj, 0)), node)
            if st.dead:
                return UNBOUND
            self.event('call', (mk('attr', obj, name), args, kw), st, node)
            return mk('call', mk('attr', obj, 'index'), tuple(args), tuple(kw), st.vers.get(obj, 0))
        if name == 'get' and len(args) in (1, 2):
            segs = st.heap.get((obj, '[]'))
            d = args[1] if len(args) > 1 else NONE
            if obj.op == 'new' and segs is not None and is_const(args[0]) and all(
                    s[0] == 'one' and s[1].op == 'tuple' and is_const(s[1].args[0]) and not s[-1] for s in segs):
                for s in segs:
                    if s[1].args[0] is args[0]:
                        return s[1].args[1]
                return d
            ty = self.typeof(obj, st)
            if not isinstance(ty, Class) and obj.op in ('global', 'new', 'attr', 'param'):
                return ite(mk('cmp', 'in', args[0], obj), mk('item', obj, args[0]), d)
            return None
        if name == 'copy' and self.is_listy(obj, st):
            return self.newlist(st.heap.get((obj, '[]'), ()), st, node, obj.args[0].args[0])
        return None

    def external(self, name, args, kw, st, node):
        last = name.split('.')[-1]
        if name in ('itertools.chain',):
            return mk('chain', *args)
        if name == 'itertools.chain.from_iterable' and args:
            return None
        if name == 'itertools.filterfalse' and len(args) == 2:
            return mk('lazy', 'filterfalse', args[0], args[1])
        if name == 'itertools.takewhile' and len(args) == 2:
            return mk('lazy', 'filter', args[0], args[1])
        if name == 'itertools.islice':
            return mk('call', mk('ext', name), args, kw, 0)
        if name == 'functools.partial' and args:
            return mk('partial', args[0], tuple(args[1:]), tuple(kw))
        if name == 'weakref.ref' and len(args) == 1:
            return mk('weakref', args[0])
        if name in ('contextlib.suppress',):
            return None
        if name in ('math.log2', 'math.log', 'math.floor', 'fractions.Fraction'):
            self.event('call', (mk('ext', name), args, kw), st, node)
            return mk('call', mk('ext', name), args, kw, 0)
        return None


def pre_objs(pre):
    return {k[0] for k in pre.heap}


def _bmro(name):
    out = [name]
    while BUILTIN_TYPES.get(name):
        name = BUILTIN_TYPES[name][0]
        out.append(name)
    return out


def exc_name(exc):
    if isinstance(exc, str):
        return exc
    if exc.op == 'exc':
        return exc.args[0]
    if exc.op == 'builtin':
        return exc.args[0]
    if exc.op == 'call' and exc.args[0].op == 'builtin':
        return exc.args[0].args[0]
    if exc.op == 'cls':
        return exc.args[0].name
    return 'Exception'


def exc_matches(exc, handler):
    """May an exception named exc be caught by `except handler`?"""
    if exc == handler or handler in ('BaseException', 'Exception'):
        return True
    if handler in _bmro(exc):
        return True
    # a generic exception may be any of its subclasses
    if exc in BUILTIN_TYPES and exc in _bmro(handler) and exc in ('Exception', 'LookupError', 'BaseException'):
        return True
    if exc == 'reraise':
        return True
    return False


BINOPS = {ast.Add: '+', ast.Sub: '-', ast.Mult: '*', ast.Div: '/', ast.FloorDiv: '//', ast.Mod: '%',
          ast.Pow: '**', ast.LShift: '<<', ast.RShift: '>>', ast.BitOr: '|', ast.BitAnd: '&',
          ast.BitXor: '^', ast.MatMult: '@'}
CMPOPS = {ast.Eq: '==', ast.NotEq: '!=', ast.Lt: '<', ast.LtE: '<=', ast.Gt: '>', ast.GtE: '>=',
          ast.Is: 'is', ast.IsNot: 'is not', ast.In: 'in', ast.NotIn: 'not in'}
