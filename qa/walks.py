"""Procedures of a pitch or rhythm operation: its method and the closures in it.

An operation is one method with nested functions that call each other. The method
is analysed with everything inlined, up to recursion; every closure whose call was
left standing there is analysed on its own, with unknown arguments for the nodes and
the given constants for flags, until no new closure turns up.
"""
from .lib import *

OPAQUE = frozenset('''process read_node write_node find_language lilypond_version make_absolute make_relative
skip_comments ancestor is_root is_full copy pitchable instances_of in_range add nodes follow_language
previous_duration from_duration duration duration_scaling scaling may_remove find_block'''.split())


class Proc:
    """What one procedure does."""
    def __init__(self, name, func, interp, result, args, closure=None, generator=False):
        self.name = name
        self.func = func
        self.interp = interp
        self.result = result
        self.events = result.events
        self.args = args            # name -> term
        self.closure = closure
        self.generator = generator

    @property
    def where(self):
        return self.func.where


class _Run:
    pass


def procedures(m, cls, func, opaque=OPAQUE, hook=None, **kw):
    """The Proc of func and of every closure in it that is called recursively.

    hook is called like Interp.on_call.
    """
    seen = {}

    def on_call(I, st, fn, args, kws, nd):
        if fn.op == 'closure' and fn.args[1] in st.frames:
            seen[fn] = st.fork()
        return hook(I, st, fn, args, kws, nd) if hook else None
    I = node_interp(m, opaque=opaque, on_call=on_call, **kw)
    r = I.run(func, cls=cls)
    procs = [Proc(func.name, func, I, r, {})]
    todo = list(cut_calls(procs[0]))
    done = set()
    while todo:
        fn, args, kws = todo.pop(0)
        names = [a.arg for a in fn.args[0].node.args.args]
        given = dict(zip(names, args))
        given.update(kws)
        for n, v in zip(reversed(names), reversed(fn.args[2])):
            given.setdefault(n, v)
        flags = {n: v for n, v in given.items() if v.op == 'const' and isinstance(v.args[0], (bool, type(None)))
                 and n in names}
        key = (fn.args[0].qualname, tuple(sorted((n, repr(v.args[0])) for n, v in flags.items())))
        if key in done or fn not in seen:
            continue
        done.add(key)
        p = run_closure(m, I, fn, names, flags, seen[fn], opaque, on_call, kw)
        procs.append(p)
        todo.extend(cut_calls(p))
    return procs


def run_closure(m, I, fn, names, flags, state, opaque, on_call, kw):
    J = node_interp(m, opaque=opaque, on_call=on_call, **kw)
    J.fids = I.fids
    J.types.update(I.types)
    st = State()
    st.frames = dict(state.frames)
    st.heap = dict(state.heap)
    func = fn.args[0]
    env = {n: flags.get(n) or param(n) for n in names}
    env['@func'] = mk('func', func)
    env['@outer'] = fn.args[1]
    outer = st.frames[fn.args[1]]
    if '@class' in outer:
        env['@class'] = outer['@class']
    r = Result()
    top = Ctx('top')
    J.ctxs.append(top)
    try:
        if func.is_generator:
            def on_yield(st2, v, node):
                J.event('yield', (v,), st2, node)
                return mk('sent', v, len(J.stack))
            J.run_gen_body(func, env, st, on_yield)
            r.returns = [] if st.dead else [(st, NONE)]
        else:
            r.returns = J.run_body(func, env, st)
    finally:
        J.ctxs.pop()
    r.raises = top.raises
    r.events = list(J.events)
    if r.returns:
        r.state, r.value = J.merge_vals(r.returns)
    label = func.name + ''.join(',{}={}'.format(k, v.args[0]) for k, v in sorted(flags.items()))
    return Proc(label, func, J, r, {n: env[n] for n in names}, fn, func.is_generator)


def cut_calls(p):
    """The closure calls left standing in the events of p: (closure, args, kws)."""
    found = []
    for e in p.events:
        for t in terms_of(e):
            if t.op == 'call' and t.args[0].op == 'closure' and t.args[:3] not in found:
                found.append(t.args[:3])
    r = p.result.value
    for t in subterms(r) if r is not None else ():
        if t.op == 'call' and t.args[0].op == 'closure' and t.args[:3] not in found:
            found.append(t.args[:3])
    return found


def terms_of(e):
    """All terms in the arguments of an event."""
    def rec(a):
        if isinstance(a, T):
            yield from subterms(a)
        elif isinstance(a, (tuple, list)):
            for x in a:
                yield from rec(x)
    if e.kind == 'call' and e.args[0].op == 'closure':
        yield mk('call', *(tuple(e.args[:3]) + (0,)))
    for a in e.args:
        yield from rec(a)


def loop_items(p, name):
    """Loop variables over the result of a call with the given callee name."""
    out = []
    for e in p.events:
        for t in terms_of(e):
            if t.op in ('elem', 'each') and isinstance(t.args[0], T) and t.args[0].op == 'call' \
                    and callee_name(t.args[0].args[0]) == name and t not in out:
                out.append(t)
    return out
