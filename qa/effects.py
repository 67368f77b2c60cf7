"""Transitive side effects on objects that come from outside a function.

For every function: which parameters (including what is reachable from them) can
have node or value state changed by it.  Direct effects come from the events of
a value flow run, calls that were not inlined are resolved by class hierarchy
(all methods of that name in the package).
"""
from .lib import *

LISTOPS = {'append', 'extend', 'insert', 'pop', 'remove', 'clear', 'sort', 'reverse'}
FRESH_CALLS = {'copy', 'copy_with_origin', 'deepcopy', 'tokens', 'split', 'join', 'format', 'from_nodes'}


def roots(t, I, seen=None, depth=0, esc=False):
    """Names of the parameters t may be (a part of); '?' when unknown."""
    if seen is None:
        seen = set()
    if t in seen or depth > 25:
        return set()
    seen.add(t)
    op = t.op
    R = lambda x: roots(x, I, seen, depth + 1, esc)
    if op == 'param':
        return {t.args[0]}
    if op == 'free':
        return {'free:' + str(t.args[0])}
    if op == 'new':
        return set()
    if op in ('const', 'cls', 'func', 'closure', 'mod', 'builtin', 'len', 'fmt', 'index', 'truth', 'cmp', 'not',
              'isinstance', 'bin', 'rawnew', 'str', 'unbound', 'ext', 'global', 'has', 'sent'):
        return set()
    if op == 'ite':
        return R(t.args[1]) | R(t.args[2])
    if op == 'phi':
        out = set()
        for x in (t.args[0] if isinstance(t.args[0], tuple) else t.args):
            if isinstance(x, T):
                out |= R(x)
        return out
    if op == 'mu':
        out = set()
        for v in I.mu.get(t, ())[:2]:
            if isinstance(v, T):
                out |= R(v)
        return out
    if op in ('attr', 'item', 'elem', 'slice', 'iter', 'reversed', 'from', 'popped', 'weakref', 'entered', 'next', 'star',
              'tupleof', 'sorted', 'enumerated', 'super'):
        b, last = t.args[0], t
        while isinstance(b, T) and b.op in ('attr', 'item', 'elem', 'slice', 'iter', 'reversed', 'from', 'popped'):
            b, last = b.args[0], b
        if isinstance(b, T) and b.op == 'new':
            if last.op != 'attr' and b in getattr(I, 'items_of', {}):
                out = set()
                for x in I.items_of[b]:
                    if x is not b:
                        out |= inside(x, I, seen, depth + 1) if x.op == 'new' and last is not t else R(x)
                return out
            return inside(b, I, seen, depth)
        return R(t.args[0]) if isinstance(t.args[0], T) else set()
    if op in ('tuple', 'seq'):
        out = set()
        for x in t.args:
            if isinstance(x, T):
                out |= R(x)
        return out
    if op == 'call':
        fn = t.args[0]
        nm = callee_name(fn)
        if fn.op == 'cls' or nm in FRESH_CALLS or nm and nm[:1].isupper():
            return set()
        if fn.op in ('func', 'bound') and isinstance(fn.args[0], Func) and returns_fresh(I.model, fn.args[0]):
            return set()
        out = set()
        b = callee_base(fn)
        if isinstance(b, T):
            out |= R(b)
        for x in t.args[1]:
            if isinstance(x, T):
                out |= R(x)
        for k, x in t.args[2]:
            if isinstance(x, T):
                out |= R(x)
        return out
    if op == 'gen':
        out = set()
        env = I.genenv.get(t.args[1])
        if isinstance(env, dict):
            for x in env.values():
                if isinstance(x, T):
                    out |= R(x)
        return out
    if op == 'lazy':
        out = set()
        for x in t.args[1:]:
            if isinstance(x, T):
                out |= R(x)
        if t.args[0] == 'genexp':
            return set()
        return out
    out = set()
    for x in t.args:
        if isinstance(x, T):
            out |= R(x)
    return out


def inside(obj, I, seen, depth):
    """Roots of what was put in a new object."""
    key = ('inside', obj)
    if key in seen:
        return set()
    seen.add(key)
    out = set()
    for x in getattr(I, 'contents_of', {}).get(obj, ()):
        if x is not obj:
            out |= inside(x, I, seen, depth + 1) if x.op == 'new' else roots(x, I, seen, depth + 1)
    return out


def logged_run(I, f, **kw):
    """Run f and keep everything stored in the heap in I.heaplog."""
    Heap.log = I.heaplog = {}
    try:
        return I.run(f, cls=f.cls, **kw)
    finally:
        Heap.log = None


def note_contents(I, r):
    """Remember which terms end up in new objects."""
    d = I.contents_of = {}
    items = I.items_of = {}

    def put(o, x):
        if isinstance(x, T) and x.op not in ('star', 'lazy'):
            d.setdefault(o, []).append(x)
            if x.op in ('tuple', 'seq'):
                for y in x.args:
                    put(o, y)
    for e in r.events:
        if e.kind == 'new':
            for x in e.args[1]:
                put(e.args[0], x)
            for k, x in e.args[2]:
                put(e.args[0], x)
        elif e.kind == 'store' and e.args[0].op == 'new':
            put(e.args[0], e.args[2])
        elif e.kind == 'mutate' and e.args[0].op == 'new' and len(e.args) > 2 \
                and (e.args[0], '[]') not in getattr(I, 'heaplog', {}):
            for x in e.args[2]:
                put(e.args[0], x)
                if isinstance(x, T):
                    items.setdefault(e.args[0], []).append(x)
    for (o, n), vs in getattr(I, 'heaplog', {}).items():
        for v in vs:
            if isinstance(o, T) and o.op == 'new':
                if isinstance(v, T):
                    put(o, v)
                elif isinstance(v, tuple):
                    if n == '[]':
                        items.setdefault(o, [])
                    for seg in v:
                        for x in seg if isinstance(seg, tuple) else ():
                            put(o, x)
                            if n == '[]' and isinstance(x, T):
                                items[o].append(x)


_fresh = {}


def returns_fresh(model, f):
    key = (id(model), f)
    if key in _fresh:
        return _fresh[key]
    _fresh[key] = False
    ok = f.name in FRESH_CALLS or f.name.startswith('copy')
    _fresh[key] = ok
    return ok


class Effects:
    """Effects of all functions of the package."""

    def __init__(self, model, attrs, nodecls, container_attrs=()):
        self.m = model
        self.attrs = attrs                  # attribute names that are state
        self.node = nodecls
        self.direct = {}                    # func -> {(root, kind): where}
        self.calls = {}                     # func -> [(targets, {param: roots}, where)]
        self.byname = {}
        for f in model.all_funcs():
            if f.cls is not None and f.outer is None and f.prop_role not in ('setter', 'deleter'):
                self.byname.setdefault(f.name, []).append(f)
        self.failed = []
        self.sum = {}
        for f in model.all_funcs():
            self.scan(f)
        self.solve()

    def isnode(self, ty):
        return isinstance(ty, Class) and ty.issub(self.node)

    def scan(self, f):
        I = node_interp(self.m, max_depth=3)
        d, calls = {}, []
        self.direct[f] = d
        self.calls[f] = calls
        try:
            r = logged_run(I, f)
        except (Budget, RecursionError):
            self.failed.append(f)
            return
        note_contents(I, r)

        def add(base, kind, e):
            for x in roots(base, I):
                d.setdefault((x, kind), e.where)
        for e in r.events:
            k = e.kind
            if k in ('store', 'setprop', 'delattr'):
                if e.args[1] in self.attrs:
                    add(e.args[0], e.args[1], e)
            elif k in ('setitem', 'delitem', 'mutate'):
                b = e.args[0]
                if k == 'mutate' and e.args[1] not in LISTOPS:
                    if e.args[1] == 'add' and not (b.op == 'new'):
                        calls.append((self.byname.get('add', []), self.bind(None, b, e.args[2] if len(e.args) > 2 else (), (), I), e.where, b))
                    continue
                if self.maybe_node(b, I):
                    add(b, 'children', e)
                    if k == 'mutate' and self.isnode(I.typeof(b)) and len(e.args) > 2:
                        for x in e.args[2]:
                            if isinstance(x, T):
                                for y in roots(x, I):
                                    d.setdefault((y, '_parent'), e.where)
                elif b.op == 'attr' and b.args[1] in self.attrs:
                    add(b.args[0], b.args[1], e)
            elif k == 'call':
                fn, args, kws = e.args[:3]
                self.call(f, fn, args, kws, I, e, calls)
            elif k == 'setattr_dyn':
                if isinstance(e.args[0], T) and self.isnode(I.typeof(e.args[0])):
                    add(e.args[0], 'any attribute', e)

    def maybe_node(self, b, I):
        ty = I.typeof(b)
        if ty is not None:
            return self.isnode(ty)
        if b.op == 'attr':
            return b.args[1] in ('node', 'parent', 'element')
        if b.op == 'ite':
            return any(self.maybe_node(x, I) for x, _ in leaves(b))
        return b.op in ('param', 'elem', 'call', 'item', 'mu', 'popped', 'next')

    def bind(self, target, base, args, kws, I):
        return (base, args, kws, I)

    def call(self, f, fn, args, kws, I, e, calls):
        base = callee_base(fn)
        nm = callee_name(fn)
        if fn.op in ('func', 'bound') and isinstance(fn.args[0], Func):
            targets = [fn.args[0]]
            if fn.op == 'bound' and fn.args[0].cls is not None:
                # overriding methods
                targets += [g for g in self.byname.get(nm, ()) if g is not fn.args[0] and g.cls.issub(fn.args[0].cls)]
        elif fn.op == 'cls' and isinstance(fn.args[0], Class):
            k = fn.args[0].lookup('__init__')
            targets = [k[2]] if k and k[1] == 'method' else []
            base = None
        elif fn.op == 'attr':
            ty = I.typeof(fn.args[0])
            targets = self.byname.get(nm, [])
            if isinstance(ty, Class):
                targets = [g for g in targets if g.cls.issub(ty) or ty.issub(g.cls)]
            elif ty is not None or nm in LISTOPS | {'index', 'count', 'keys', 'values', 'items', 'get', 'update'}:
                targets = []
            if ty is None:
                here = f.module.name
                targets = [g for g in targets if not g.module.name.startswith('quickly.lang.') or g.module.name == here]
            if fn.args[0].op in ('mod', 'ext', 'super'):
                targets = []
        else:
            return
        if targets:
            calls.append((targets, (base, args, kws, I), e.where, fn))

    def argmap(self, g, b):
        """param -> roots for a call of g."""
        base, args, kws, I = b
        names = g.params()
        out = {}
        off = 0
        if g.cls is not None and g.kind != 'staticmethod' and names and g.outer is None:
            out[names[0]] = roots(base, I) if isinstance(base, T) and base.op != 'cls' else set()
            off = 1
        pos = names[off:]
        va = g.node.args.vararg
        rest = set()
        for i, a in enumerate(args):
            if not isinstance(a, T):
                continue
            if a.op == 'star' or i >= len(pos):
                rest |= roots(a, I)
            else:
                out[pos[i]] = roots(a, I)
        if va:
            out['*' + va.arg] = rest
        for k, a in kws:
            if isinstance(a, T) and isinstance(k, str):
                out[k] = roots(a, I)
        return out

    def solve(self):
        for f, d in self.direct.items():
            self.sum[f] = {k: (w, None) for k, w in d.items()}
        prepared = {f: [(g, self.argmap(g, b), where) for ts, b, where, fn in cs for g in ts if g in self.sum]
                    for f, cs in self.calls.items()}
        self.prepared = prepared
        todo = True
        n = 0
        while todo and n < 60:
            todo = False
            n += 1
            for f, cs in prepared.items():
                s = self.sum[f]
                for g, amap, where in cs:
                    for (root, kind) in list(self.sum[g]):
                        for x in amap.get(root, {'?'} if root == '?' else ()):
                            if (x, kind) not in s:
                                s[(x, kind)] = (where, g)
                                todo = True

    def explain(self, f, key):
        out = []
        n = 0
        while f is not None and n < 8:
            where, g = self.sum[f][key]
            out.append(where)
            if g is None:
                break
            cand = [k for k in self.sum[g] if k[1] == key[1]]
            if not cand:
                break
            f, key = g, cand[0]
            n += 1
        return ' <- '.join(out)
