"""H01: markup helpers produce the command they are named after.

Every function of the markup module is run by value flow; the element it
returns is compared with its own name and with the table of markup commands
and argument counts of the parser. The functions that are generated from that
table are decided on the generating function: one maker for every argument
count, with that number of arguments.
"""
import keyword
from ..lib import *
from ..elements import Elements

TECHNIQUE = ('Value-flow on every markup helper (command text, number and order of the arguments of the returned element) '
             'against the command table of the parser, syntax rules on the generated helpers, table checks on the '
             'conversion of Python values.')
NOTE = ('The returned element of each helper is compared with the command table of the parser library: text, number of '
        'arguments, every parameter used once and in order. What LilyPond itself does with an argument is out of scope.')


def table(m):
    mod = m.module('parce.lang.lilypond_words')
    t = m.literal(mod, assigned(mod, 'markup_commands_nargs'))
    return [list(x) for x in t]


def assigned(mod, name):
    """The expression a module level name is set to, None if unknown."""
    v = mod.assigns.get(name) or ()
    return v[0][0] if len(v) == 1 else None


def pyname(cmd):
    n = cmd.replace('-', '_')
    return n + '_' if keyword.iskeyword(n) else n


def check(c):
    m = c.model
    E = Elements(m)
    mod = m.module('quickly.dom.markup')
    cmds = table(m)
    nargs = {x: n for n, xs in enumerate(cmds) for x in xs}
    names = {pyname(x): x for x in nargs}
    base = {m.cls('dom.lily.MarkupCommand'), m.cls('dom.lily.MarkupScore'), m.cls('dom.lily.Markup')}
    for name, f in sorted(mod.funcs.items()):
        c.unit('function')
        c.guard('helper', name, lambda: helper(c, m, E, f, name, names, nargs, base))
    c.guard('generated', 'helpers', lambda: generated(c, m, mod, cmds, names))
    c.guard('argument', 'argument', lambda: arguments(c, m, mod))
    c.guard('value', 'value', lambda: values(c, m, E))
    c.floor('helper', 35)
    c.floor('count', 30)
    c.floor('given', 30)
    c.floor('generated', 100)
    c.floor('argument', 4)
    c.floor('range', 6)


def build(t, I, r):
    """(class, head, [children]) of a new element."""
    k = next((x for x in t.args if isinstance(x, Class)), None) or next((x.args[0] for x in t.args if isinstance(x, T) and x.op == 'cls'), None)
    head = r.state.heap.get((t, '_head'))
    for e in r.events:
        if e.kind == 'store' and e.args[0] is t and e.args[1] == '_head':
            head = e.args[2]
    ch = []
    for e in r.events:
        if e.kind == 'mutate' and e.args[0] is t:
            if e.args[1] in ('extend', '__init__'):
                for x in e.args[2]:
                    got = contents(x, r.state.heap)
                    ch += [('one' if kind == 'one' else kind, y, lits) for kind, y, lits in got]
            elif e.args[1] == 'append':
                ch += [('one', e.args[2][0], ())]
    return k, head, ch


def given(t, I, r, params, depth=0):
    """The parameters in a term, in order."""
    if depth > 12:
        return []
    if t.op == 'param':
        return [t.args[0].lstrip('*')]
    if t.op == 'ite':
        a, b = given(t.args[1], I, r, params, depth + 1), given(t.args[2], I, r, params, depth + 1)
        return a if len(set(a)) >= len(set(b)) else b
    if t.op == 'new':
        k, head, ch = build(t, I, r)
        out = given(head, I, r, params, depth + 1) if isinstance(head, T) else []
        for kind, x, lits in ch:
            if x is not t:
                out = out + given(x, I, r, params, depth + 1)
        return out
    if t.op == 'call':
        out = []
        for x in t.args[1]:
            if isinstance(x, T):
                out += given(x, I, r, params, depth + 1)
        return out
    if t.op == 'len':
        return []
    out = []
    for x in t.args:
        for y in x if isinstance(x, tuple) else (x,):
            if isinstance(y, T):
                out += given(y, I, r, params, depth + 1)
    return out


def uniq(xs):
    out = []
    for x in xs:
        if not out or out[-1] != x:
            out.append(x)
    return out


def helper(c, m, E, f, name, names, nargs, base):
    I = node_interp(m)
    r = I.run(f)
    where = f.where
    for e in r.events:
        if e.kind == 'bad_arity':
            c.ob('helper', '{} call'.format(name), False, 'calls {} with another number of arguments than it takes'.format(show(e.args[0])), where)
    c.ob('helper', name, True, '', where)
    if r.value is None:
        return
    got = []
    for v, conds in leaves(r.value):
        if v.op == 'new':
            k, head, ch = build(v, I, r)
            if k is not None and any(k.issub(b) for b in base):
                got.append((v, k, head, ch))
    if not got:
        c.ob('name', name, name not in names, 'does not make the command \\{}'.format(names.get(name)), where)
        return
    if name.startswith('_'):
        return
    cmd = names.get(name)
    a = f.node.args
    params = [x.arg for x in a.posonlyargs + a.args] + ([a.vararg.arg] if a.vararg else [])
    for v, k, head, ch in got:
        if head is None:
            h = E.head(k)
            text = h.split()[0].lstrip('\\') if h else None
        elif is_const(head):
            text = head.args[0].lstrip('\\')
        else:
            c.unknown('name', name, 'the command is ' + show(head))
            continue
        want = cmd or name.replace('_', '-')
        c.ob('name', name, text == want, 'makes the command \\{}'.format(text), where)
        # arguments
        rest = [x for kind, x, lits in ch]
        many = [x for kind, x, lits in ch if kind != 'one']
        if cmd is not None and k.name == 'MarkupCommand':
            if many:
                n = None if len(many) > 1 else len(rest)
                c.ob('count', name, False, 'makes any number of arguments, the command has {}'.format(nargs[cmd]), where)
            else:
                c.ob('count', name, len(rest) == nargs[cmd], 'makes {} arguments, the command has {}'.format(len(rest), nargs[cmd]), where)
        per = [uniq(given(x, I, r, params)) for x in rest]
        used = [p for xs in per for p in dict.fromkeys(xs)]
        c.ob('given', name, sorted(used) == sorted(params), 'uses {} of the parameters {}'.format(', '.join(used) or 'none', ', '.join(params)), where)
        for p in params:
            q = p[:-1] + '2'
            if len(p) == 2 and p[1] == '1' and q in params:
                c.ob('range', '{} {}'.format(name, p[0]), any(xs == [p, q] for xs in per), '{} and {} are not the two numbers of one argument'.format(p, q), where)
        firsts = [params.index(xs[0]) for xs in per if xs and xs[0] in params]
        c.ob('order', name, firsts == sorted(firsts) and all([params.index(p) for p in xs if p in params] == sorted(params.index(p) for p in xs if p in params) for xs in per),
             'the arguments are in the order {}'.format(', '.join(used)), where)


# -- the generated helpers
def generated(c, m, mod, cmds, names):
    defs = set(mod.funcs) | set(names_of(mod))
    makers = None
    home = None
    for f in mod.funcs.values():
        for n in ast.walk(f.node):
            if isinstance(n, ast.Assign) and isinstance(n.value, (ast.Tuple, ast.List)) and len(n.value.elts) >= 3 \
                    and sum(isinstance(x, ast.Lambda) or isinstance(x, ast.Name) for x in n.value.elts) >= 3 and any(
                        'markup_commands' in ast.dump(y) for y in ast.walk(f.node)):
                makers, home = n.value.elts, f
    if makers is None:
        c.unknown('generated', 'makers', 'no table of makers found')
        return
    where = home.where
    c.ob('generated', 'every argument count', len(makers) >= len(cmds), 'there are {} makers, but commands with up to {} arguments'.format(len(makers), len(cmds) - 1), where)
    local = {n.name: n for n in ast.walk(home.node) if isinstance(n, ast.FunctionDef)}
    good = {}
    for i, x in enumerate(makers):
        if i >= len(cmds):
            break
        if isinstance(x, ast.Constant) and x.value is None:
            good[i] = None
            continue
        node = local.get(x.id) if isinstance(x, ast.Name) else x
        if node is None:
            f = mod.funcs.get(x.id) if isinstance(x, ast.Name) else None
            node = f.node if f is not None else None
        if node is None:
            c.unknown('generated', 'maker {}'.format(i), 'not understood')
            continue
        good[i] = True
        maker(c, m, mod, i, node, where)
    for i, xs in enumerate(cmds):
        for cmd in xs:
            n = pyname(cmd)
            c.ob('generated', cmd, n in mod.funcs or n not in defs and good.get(i, True) is not None, 'there is no helper for \\{}'.format(cmd) if n not in defs else 'the name {} is taken by something else'.format(n), where)
    # the name is derived from the command
    f = home.node
    reps = [n for n in ast.walk(f) if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'replace'
            and [getattr(x, 'value', None) for x in n.args] == ['-', '_']]
    if not reps:
        c.unknown('generated', 'name', 'the name is not made by replacing hyphens')
    kw = any(isinstance(n, ast.Attribute) and n.attr in ('iskeyword', 'kwlist') for n in ast.walk(f))
    c.ob('generated', 'keywords', kw, 'a command named like a Python keyword gets a name that cannot be used', where)


def names_of(mod):
    """Names bound at module level other than functions."""
    for s in mod.tree.body:
        if isinstance(s, ast.Import):
            for a in s.names:
                yield (a.asname or a.name).partition('.')[0]
        elif isinstance(s, ast.ImportFrom):
            for a in s.names:
                yield a.asname or a.name
        elif isinstance(s, ast.Assign):
            for t in s.targets:
                if isinstance(t, ast.Name):
                    yield t.id
        elif isinstance(s, ast.ClassDef):
            yield s.name


def inner(node):
    """The function a maker returns."""
    if isinstance(node, ast.Lambda):
        return node.body if isinstance(node.body, ast.Lambda) else None
    for s in node.body:
        if isinstance(s, ast.Return):
            if isinstance(s.value, ast.Lambda):
                return s.value
            if isinstance(s.value, ast.Name):
                return next((d for d in node.body if isinstance(d, ast.FunctionDef) and d.name == s.value.id), None)
    return None


def maker(c, m, mod, i, node, where):
    name = 'maker {}'.format(i)
    g = inner(node)
    args = [a.arg for a in node.args.args]
    if g is None or len(args) != 1:
        c.unknown('generated', name, 'does not return a function')
        return
    body = g.body if isinstance(g, ast.Lambda) else next((s.value for s in g.body if isinstance(s, ast.Return)), None)
    if not isinstance(body, ast.Call) or not body.args:
        c.unknown('generated', name, 'does not return a call')
        return
    k = m.resolve_expr(mod, body.func)
    if not (isinstance(k, Class) and k.name == 'MarkupCommand'):
        try:
            k = m.resolve_expr(mod, assigned(mod, body.func.id)) if isinstance(body.func, ast.Name) and assigned(mod, body.func.id) is not None else k
        except (KeyError, TypeError):
            pass
    if not (isinstance(k, Class) and k.name == 'MarkupCommand'):
        c.unknown('generated', name, 'does not make a markup command')
        return
    c.ob('generated', name + ' command', isinstance(body.args[0], ast.Name) and body.args[0].id == args[0], 'the command is not the one the maker is called with', where)
    n = 0
    params = [a.arg for a in g.args.posonlyargs + g.args.args] + ([g.args.vararg.arg] if g.args.vararg else [])
    used = []
    for x in body.args[1:]:
        if isinstance(x, ast.Starred):
            k = width(x.value)
            if k is None:
                c.unknown('generated', name, 'any number of arguments')
                return
            n += k
        else:
            n += 1
        used += [y.id for y in walk_in_order(x) if isinstance(y, ast.Name) and y.id in params]
    c.ob('generated', name + ' count', n == i, 'makes {} arguments for the commands that have {}'.format(n, i), where)
    c.ob('generated', name + ' parameters', used == params, 'uses {} of the parameters {}'.format(', '.join(used), ', '.join(params)), where)


def width(e):
    if isinstance(e, (ast.Tuple, ast.List)):
        return len(e.elts)
    if isinstance(e, (ast.GeneratorExp, ast.ListComp)) and len(e.generators) == 1 and not e.generators[0].ifs:
        return width(e.generators[0].iter)
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == 'map' and len(e.args) == 2:
        return width(e.args[1])
    return None


def walk_in_order(e):
    yield e
    for x in ast.iter_child_nodes(e):
        yield from walk_in_order(x)


# -- the conversion of arguments
def arguments(c, m, mod):
    f = mod.funcs.get('_auto_arg')
    if f is None:
        c.unknown('argument', 'one', 'no function _auto_arg')
    else:
        I = node_interp(m)
        r = I.run(f)
        arg = param(f.params()[0])
        el = m.cls('dom.element.Element')
        for v, conds in leaves(r.value):
            k = known(dict(conds))
            is_el = k.get(isinst(arg, el))
            is_str = next((p for x, p in k.items() if x.op == 'isinstance' and x.args[0] is arg and 'str' in show(x)), None)
            if v is arg:
                c.ob('argument', 'element', is_el is True, 'something else than an element is used unchanged', f.where)
                continue
            if v.op != 'new':
                c.unknown('argument', 'one', show(v))
                continue
            kl, head, ch = build(v, I, r)
            if kl.name == 'MarkupWord':
                word = next((p for x, p in k.items() if matched(m, mod, x, arg)), None)
                c.ob('argument', 'word', is_str is True and word is True and head is arg, 'a text that is no markup word is written as one', f.where)
            elif kl.name == 'String':
                c.ob('argument', 'string', is_str is True and head is arg, 'not only texts are written as string', f.where)
            elif kl.name == 'Scheme':
                c.ob('argument', 'Scheme', is_str is not True and is_el is not True, 'a text or element is converted to Scheme', f.where)
    g = mod.funcs.get('_create_list')
    if g is None:
        c.unknown('argument', 'list', 'no function _create_list')
        return
    I = node_interp(m, opaque={'_auto_arg'})
    r = I.run(g)
    args = param(g.params()[0])
    one = mk('cmp', '==', mk('len', args, 0), const(1))
    for v, conds in leaves(r.value):
        k = known(dict(conds))
        single = next((p for x, p in k.items() if x.op == 'cmp' and any(y.op == 'len' for y in x.args[1:])), None)
        if v.op == 'new':
            kl, head, ch = build(v, I, r)
            conv = [x for kind, x, lits in ch]
            ok = kl.name == 'MarkupList' and len(ch) == 1 and converted(conv[0], args, r)
            c.ob('argument', 'several', ok, 'not all arguments are converted and put in a list in order', g.where)
        else:
            ok = v.op == 'call' and callee_name(v.args[0]) == '_auto_arg' and v.args[1] and v.args[1][0] is mk('item', args, const(0))
            c.ob('argument', 'single', ok and bool(conds), 'one argument is not used as it is', g.where)


def converted(t, args, r):
    """Whether t stands for all args, converted."""
    for _ in range(6):
        if t.op in ('tupleof', 'iter'):
            t = t.args[0]
        elif t.op == 'new':
            ch = contents(t, r.state.heap)
            if len(ch) != 1 or ch[0][2] or ch[0][1] is t:
                return False
            t = ch[0][1]
        elif t.op == 'star':
            t = t.args[0]
        else:
            break
    if t.op == 'lazy' and t.args[0] == 'map':
        return callee_name(t.args[1]) in ('_auto_arg',) or '_auto_arg' in show(t.args[1]) and t.args[2] is args
    return t.op == 'call' and callee_name(t.args[0]) == '_auto_arg' and bool(t.args[1]) and t.args[1][0].op in ('elem', 'each') and t.args[1][0].args[0] is args


def matched(m, mod, t, arg):
    """Whether a condition says that the whole text matches the pattern of a markup word."""
    while t.op == 'truth':
        t = t.args[0]
    if t.op != 'call' or t.args[1][-1:] != (arg,):
        return False
    f = t.args[0]
    if f.op == 'global':
        e = assigned(mod, f.args[1])
        return e is not None and isinstance(e, ast.Attribute) and e.attr == 'fullmatch'
    return f.op == 'attr' and f.args[1] == 'fullmatch' or f.op == 'ext' and f.args[0] == 're.fullmatch'


def values(c, m, E):
    """The element types Python values are converted to."""
    mod = m.module('quickly.dom.scm')
    e = assigned(mod, '_element_mapping')
    if not isinstance(e, ast.Dict):
        c.unknown('value', 'table', 'not understood')
        return
    want = {'bool': 'Bool', 'int': 'Number', 'float': 'Number', 'str': 'String'}
    seen = set()
    for k, v in zip(e.keys, e.values):
        if isinstance(k, ast.Name):
            seen.add(k.id)
            cl = m.resolve_expr(mod, v)
            if k.id in want and isinstance(cl, Class):
                c.ob('value', k.id, cl.name == want[k.id], 'a {} becomes {}'.format(k.id, cl.name), mod.name)
    for k in ('bool', 'int', 'float', 'str', 'list', 'tuple'):
        c.ob('value', k + ' known', k in seen, 'there is no conversion for a ' + k, mod.name)
