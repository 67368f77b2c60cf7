"""X06: what is read from tokens is what is written back.

For each element type the method that computes the head value from the origin
tokens and the method that writes the head value are brought in a normal form
by value flow:

    writing    prefix + W(head) + suffix
    reading    R(text of the tokens without the leading and trailing parts)

The affixes must correspond (in characters, or in tokens: then the first tokens
the lexicon yields in the contexts that lead to the type have that text), and
W must be an inverse of R, from a table of recognized inverse pairs.
"""
import os
from string import Formatter
from ..lib import *
from ..handlers import Handlers
from . import X03
from ..gvf import T as T_

try:
    from re import _parser as sre
except ImportError:     # pragma: no cover
    import sre_parse as sre

TECHNIQUE = ('Value-flow normal forms of the reading and writing methods of every element type (affixes, per-token '
             'conversion, core conversion), matched with a table of inverse conversions and with the token patterns '
             'of the lexer; one-to-one check of all value tables.')
NOTE = ('Each read_head/write_head pair is reduced to affixes and a core conversion; affixes are compared with each '
        'other and with the texts the lexer yields, cores with a table of inverse pairs. Pairs whose form is not in the '
        'table are reported as undecided, not as violation. Scheme numbers: only the radix tables are compared, '
        'the conversion of the digits is done by the parser library.')

HEAD = mk('attr', param('self'), '_head')


# -- writing
def pieces(t, r):
    """A written text as list of str and T; None if not understood."""
    if is_const(t):
        return [t.args[0]] if isinstance(t.args[0], str) else [t]
    if t.op == 'bin' and t.args[0] == '+':
        a, b = pieces(t.args[1], r), pieces(t.args[2], r)
        return a + b
    if t.op == 'ite':
        # texts both branches begin or end with
        a, b = merged(pieces(t.args[1], r)), merged(pieces(t.args[2], r))
        pre = suf = ''
        if a and b and isinstance(a[0], str) and isinstance(b[0], str):
            pre = os.path.commonprefix([a[0], b[0]])
            a[0], b[0] = a[0][len(pre):], b[0][len(pre):]
        if a and b and isinstance(a[-1], str) and isinstance(b[-1], str):
            suf = os.path.commonprefix([a[-1][::-1], b[-1][::-1]])[::-1]
            if suf:
                a[-1], b[-1] = a[-1][:-len(suf)], b[-1][:-len(suf)]
        if pre or suf:
            return [pre, mk('ite', t.args[0], rebuilt(a), rebuilt(b)), suf]
        return [t]
    if t.op == 'fmt':
        return sum((pieces(x, r) for x in t.args[0]), [])
    if t.op == 'bin' and t.args[0] == '%' and is_const(t.args[1]) and isinstance(t.args[1].args[0], str):
        parts = t.args[1].args[0].replace('%%', '\0').split('%s')
        args = list(t.args[2].args) if t.args[2].op == 'tuple' else [t.args[2]]
        if len(parts) == len(args) + 1 and not any('%' in p for p in parts):
            out = [parts[0].replace('\0', '%')]
            for p, x in zip(parts[1:], args):
                out += pieces(x, r) + [p.replace('\0', '%')]
            return out
        return [t]
    if t.op == 'call':
        fn, args = t.args[0], t.args[1]
        if fn.op == 'attr' and fn.args[1] == 'format' and is_const(fn.args[0]) and isinstance(fn.args[0].args[0], str):
            out, auto = [], 0
            kw = {x[0]: x[1] for x in t.args[2] if isinstance(x, tuple) and len(x) == 2}
            try:
                fields = list(Formatter().parse(fn.args[0].args[0]))
            except ValueError:
                return [t]
            for text, field, spec, conv in fields:
                out.append(text)
                if field is None:
                    continue
                if spec or conv:
                    return [t]
                if field == '':
                    field, auto = str(auto), auto + 1
                if field.isdigit() and int(field) < len(args):
                    out += pieces(args[int(field)], r)
                elif field in kw:
                    out += pieces(kw[field], r)
                else:
                    return [t]
            return out
        if fn.op == 'attr' and fn.args[1] == 'join' and fn.args[0] is const('') and len(args) == 1:
            seg = contents(args[0], r.state.heap)
            if seg and all(k == 'one' and not lits for k, x, lits in seg):
                return sum((pieces(x, r) for k, x, lits in seg), [])
    return [t]


def merged(ps):
    out = []
    for x in ps:
        if isinstance(x, str) and out and isinstance(out[-1], str):
            out[-1] += x
        elif x != '':
            out.append(x)
    return out


def rebuilt(ps):
    ps = [const(x) if isinstance(x, str) else x for x in ps if x != '']
    if not ps:
        return const('')
    t = ps[0]
    for x in ps[1:]:
        t = mk('bin', '+', t, x)
    return t


def template(t, r):
    """(prefix, core, suffix) of a written text, or None."""
    out = merged(pieces(t, r))
    cores = [i for i, x in enumerate(out) if not isinstance(x, str)]
    if len(cores) != 1 or len(out) > 3:
        return None
    i = cores[0]
    return ''.join(out[:i]), out[i], ''.join(out[i+1:])


def written(t, r):
    """([(value, text)] special values, [(conditions, term)] other cases)."""
    if t.op == 'ite':
        special, cases = [], []
        cond = t.args[0]
        neg = False
        c, p = lit(cond)
        a, b = (t.args[1], t.args[2]) if p else (t.args[2], t.args[1])
        v = None
        if c.op == 'cmp' and c.args[0] in ('==', 'is'):
            v = c.args[2] if c.args[1] is HEAD else c.args[1] if c.args[2] is HEAD else None
        if v is not None and is_const(v) and is_const(a):
            s, o = written(b, r)
            return [(v.args[0], a.args[0])] + s, o
    return [], [t]


# -- reading
class Source:
    """A text taken from tokens: per token or from the first token, with affixes left out."""

    def __init__(self):
        self.lead = self.trail = 0          # characters left out
        self.first = 0                      # tokens left out
        self.end = None                     # (closing text, guarded by a length test) or None
        self.only = False                   # only the first token
        self.item = None                    # the per token conversion
        self.skip = ()                      # texts of tokens left out wherever they are


def strip(t, s):
    """Peel off constant character slices of a text."""
    while t.op == 'slice' and t.args[3] in (NONE, const(1)):
        lo, hi = t.args[1], t.args[2]
        if lo is NONE:
            lo = const(0)
        if not is_const(lo) or not isinstance(lo.args[0], int) or lo.args[0] < 0 or not (hi is NONE or is_const(hi) and isinstance(hi.args[0], int) and hi.args[0] < 0):
            return None
        s.lead += lo.args[0]
        s.trail += 0 if hi is NONE else -hi.args[0]
        t = t.args[0]
    return t


def tokens(t, s, origin):
    """Understand an iterable of tokens as (part of) the origin; True if understood."""
    while t.op in ('iter', 'tupleof') or t.op == 'call' and callee_name(t.args[0]) in ('tuple', 'list', 'iter'):
        t = t.args[0] if t.op != 'call' else t.args[1][0]
    if t is origin:
        return True
    if t.op == 'ite':
        c, p = lit(t.args[0])
        a, b = (t.args[1], t.args[2]) if p else (t.args[2], t.args[1])
        sa, sb = Source(), Source()
        if not tokens(a, sa, origin) or not tokens(b, sb, origin) or sa.first != sb.first or sb.end is not None or sa.end != (None, True):
            return False
        text, guard = None, False
        for cnd, q in known([(t.args[0], True)]).items():
            bases = {x.args[0] for x in subterms(cnd) if x.op == 'item'}
            for base in bases or ():
                w = compared(cnd, base) if base is origin or base.op == 'slice' and base.args[0] is origin else None
                if w is not None and q:
                    text = w
                    # an item left after the opening tokens are taken off
                    guard = guard or base is not origin and base.args[1] is const(sa.first)
        guard = guard or any(length_above(cnd, q, origin) for cnd, q in known([(t.args[0], True)]).items())
        if text is None:
            return False
        s.first += sa.first
        s.end = (text, guard)
        return True
    if t.op != 'slice' or t.args[3] not in (NONE, const(1)):
        return False
    lo, hi = t.args[1], t.args[2]
    if lo is not NONE:
        if not is_const(lo) or not isinstance(lo.args[0], int) or lo.args[0] < 0:
            return False
        s.first += lo.args[0]
    base = t.args[0]
    if hi is NONE:
        pass
    elif is_const(hi):
        if hi.args[0] != -1:
            return False
        s.end = (None, True)
    else:
        for v, conds in leaves(hi):
            if v is NONE or v is const(None):
                continue
            if not (is_const(v) and v.args[0] == -1) and not lasts(v, base):
                return False
            text, guard = None, False
            k = known(dict(conds))
            for cnd, p in k.items():
                w = compared(cnd, base)
                if w is not None and p:
                    text = w
                if length_above(cnd, p, base):
                    guard = True
            if text is None:
                return False
            s.end = (text, guard)
    return tokens(base, s, origin)


def lasts(v, base):
    """len(base) - 1"""
    return v.op == 'bin' and v.args[0] == '-' and v.args[2] is const(1) and v.args[1].op == 'len' and v.args[1].args[0] is base


def compared(c, base):
    """The text the last token is compared with."""
    if c.op == 'cmp' and c.args[0] == '==':
        for a, b in ((c.args[1], c.args[2]), (c.args[2], c.args[1])):
            if a.op == 'attr' and a.args[1] == 'text':
                a = a.args[0]
            if is_const(b) and isinstance(b.args[0], str) and a.op == 'item' and a.args[0] is base and is_const(a.args[1]) and a.args[1].args[0] == -1:
                return b.args[0]
    return None


def length_above(c, p, base):
    """Whether a literal says there is more than one item."""
    if c.op != 'cmp' or not p:
        if c.op == 'cmp' and not p and c.args[0] in ('<=', '=='):
            a, b = c.args[1], c.args[2]
            return is_len(a, base) and b is const(1) or is_len(b, base) and a is const(1)
        if c.op == 'cmp' and not p and c.args[0] == '<':
            return is_len(c.args[1], base) and c.args[2] is const(2)
        return False
    op, a, b = c.args
    if op == '<' and is_len(b, base):
        return is_const(a) and a.args[0] >= 1
    if op == '<=' and is_len(b, base):
        return is_const(a) and a.args[0] >= 2
    return False


def is_len(t, base):
    return t.op == 'len' and t.args[0] is base


def generated(I, r, t):
    """[(item value, facts)], what a joined iterable yields, or None."""
    if t.op == 'lazy' and t.args[0] == 'genexp':
        got = {}
        st = r.state.fork()
        base = set(st.facts)
        I.run_comp(t, st, lambda st2, v, e: got.setdefault(v, [(c, p) for c, p in st2.facts.items() if c not in base]))
        return list(got.items())
    if t.op == 'lazy' and t.args[0] == 'map':
        f, src = t.args[1], t.args[2]
        return [(('map', f, src), [])]
    if t.op in ('new', 'tuple'):
        out = []
        for k, x, lits in contents(t, r.state.heap):
            if k != 'each':
                return None
            out.append((x, list(lits)))
        return out
    return None


def norm(f):
    c, p = lit(f[0])
    return c, f[1] if p else not f[1]


def elem_of(t):
    """The generic element terms in a term."""
    return {x for x in subterms(t) if x.op in ('elem', 'each')}


def source(t, I, r, origin):
    """A Source for a text term, or None."""
    s = Source()
    t = strip(t, s)
    if t is None:
        return None
    if t.op == 'attr' and t.args[1] == 'text' and t.args[0].op == 'item' and t.args[0].args[0] is origin and t.args[0].args[1] is const(0):
        s.only = True
        return s
    if t.op == 'call' and t.args[0].op == 'attr' and t.args[0].args[1] == 'join' and t.args[0].args[0] is const('') and len(t.args[1]) == 1:
        vals = generated(I, r, t.args[1][0])
        if not vals:
            return None
        conv = []
        src = None
        for v, facts in vals:
            if isinstance(v, tuple):
                return None
            es = elem_of(v)
            if len(es) != 1:
                return None
            e = es.pop()
            src = src or e.args[0]
            if src is not e.args[0]:
                # two cases: the same tokens with another end
                a, b = dict(map(norm, first)), dict(map(norm, facts))
                cs = [x for x in a if b.get(x, a[x]) is not a[x]]
                if len(cs) != 1 or len(vals) != 2:
                    return None
                src = mk('ite', cs[0], src if a[cs[0]] else e.args[0], e.args[0] if a[cs[0]] else src)
            first = facts
            for c, p in facts:
                c, q = lit(c)
                p = p if q else not p
                if c.op == 'cmp' and c.args[0] == '==' and not p:
                    for a, b in ((c.args[1], c.args[2]), (c.args[2], c.args[1])):
                        if a.op == 'attr' and a.args[1] == 'text':
                            a = a.args[0]
                        if a is e and is_const(b):
                            s.skip += (b.args[0],)
                elif e in subterms(c):
                    for x, conds in leaves(v):
                        pass
                    conv.append((e, v, (c, p)))
                    continue
            conv.append((e, v, None))
        s.item = conv
        return s if tokens(src, s, origin) else None
    return None


def escapes_per_token(s):
    """'plain', 'escape' (the first character of escape tokens is left out) or None."""
    kind = 'plain'
    for e, v, cond in s.item or ():
        for x, conds in leaves(v):
            text = mk('attr', e, 'text')
            if x is text:
                continue
            if x.op == 'slice' and x.args[0] is text and x.args[1] is const(1) and x.args[2] is NONE:
                lits = list(conds) + ([cond] if cond else [])
                if any(is_escape(c, p, e) for c, p in lits):
                    kind = 'escape'
                    continue
            return None
    return kind


def is_escape(c, p, e):
    return p and c.op == 'cmp' and c.args[0] in ('is', '==', 'in') and any(x is mk('attr', e, 'action') for x in c.args[1:]) \
        and any(x.op == 'attr' and x.args[1] == 'Escape' for x in c.args[1:])


# -- characters of regular expressions
def charclass(p):
    """The set of characters a one-character class or group stands for, or None."""
    try:
        tree = list(sre.parse(p))
    except Exception:
        return None
    return chars(tree)


def chars(items):
    out = set()
    items = list(items)
    if len(items) != 1:
        return None
    op, av = items[0]
    op = str(op)
    if op == 'SUBPATTERN':
        return chars(av[-1])
    if op == 'LITERAL':
        return {chr(av)}
    if op == 'IN':
        for o, v in av:
            if str(o) == 'LITERAL':
                out.add(chr(v))
            elif str(o) == 'RANGE':
                out.update(map(chr, range(v[0], v[1] + 1)))
            else:
                return None
        return out
    if op == 'BRANCH':
        for b in av[1]:
            c = chars(b)
            if c is None:
                return None
            out |= c
        return out
    return None


def backslashed(p):
    """The characters X for a pattern matching backslash + X (X captured in group 1)."""
    try:
        tree = list(sre.parse(p))
    except Exception:
        return None
    if len(tree) == 2 and str(tree[0][0]) == 'LITERAL' and tree[0][1] == ord('\\'):
        if str(tree[1][0]) == 'SUBPATTERN' and tree[1][1][0] == 1:
            return chars(tree[1:])
        if str(tree[1][0]) == 'SUBPATTERN' or str(tree[1][0]) in ('LITERAL', 'IN'):
            return chars(tree[1:])
    if len(tree) == 1 and str(tree[0][0]) == 'SUBPATTERN':
        return None
    return None


def patterned(t):
    """The constant pattern, replacement and subject of a substitution."""
    if t.op == 'call' and t.args[0].op == 'ext' and t.args[0].args[0] == 're.sub' and len(t.args[1]) >= 3:
        return t.args[1][:3]
    if t.op == 'call' and t.args[0].op == 'attr' and t.args[0].args[1] == 'sub' and len(t.args[1]) >= 2:
        p = t.args[0].args[0]
        if p.op == 'call' and p.args[0].op == 'ext' and p.args[0].args[0] == 're.compile':
            return (p.args[1][0],) + tuple(t.args[1][:2])
    return None


class Escape:
    """A written escape: the characters that get a backslash, and what becomes of the rest."""


def escaped(core):
    """(characters that get a backslash before them, subject) of a written core."""
    p = patterned(core)
    if p and is_const(p[0]) and is_const(p[1]):
        repl = p[1].args[0]
        cs = charclass(p[0].args[0])
        if cs is not None and repl in ('\\\\\\1', '\\\\\\g<1>', '\\\\\\g<0>'):
            return cs, p[2]
        return None
    # a chain of replace() calls; the backslash must be done first
    got = []
    t = core
    while t.op == 'call' and t.args[0].op == 'attr' and t.args[0].args[1] == 'replace' and len(t.args[1]) == 2 and all(is_const(x) for x in t.args[1]):
        a, b = (x.args[0] for x in t.args[1])
        if not (len(a) == 1 and b == '\\' + a):
            return None
        got.append(a)
        t = t.args[0].args[0]
    if got:
        if '\\' in got and got[-1] != '\\':
            got.remove('\\')        # backslashes just added are doubled
        return set(got), t
    return None


# -- constant evaluation of reading terms
class Undecided(Exception):
    pass


def fold(t, origin, text):
    """The value of a reading term when the first token has the given text."""
    def ev(t):
        if is_const(t):
            return t.args[0]
        if t.op == 'attr' and t.args[1] == 'text' and t.args[0].op == 'item' and t.args[0].args[0] is origin and t.args[0].args[1] is const(0):
            return text
        if t.op == 'item':
            return ev(t.args[0])[ev(t.args[1])]
        if t.op == 'slice':
            return ev(t.args[0])[ev(t.args[1]):ev(t.args[2])]
        if t.op == 'tuple':
            return tuple(ev(x) for x in t.args)
        if t.op == 'not':
            return not ev(t.args[0])
        if t.op == 'truth':
            return bool(ev(t.args[0]))
        if t.op == 'and':
            return all(ev(x) for x in t.args)
        if t.op == 'or':
            return any(ev(x) for x in t.args)
        if t.op == 'ite':
            return ev(t.args[1]) if ev(t.args[0]) else ev(t.args[2])
        if t.op == 'cmp':
            a, b = ev(t.args[1]), ev(t.args[2])
            if t.args[0] == 'in':
                return a in b
            if t.args[0] in ('==', 'is'):
                return a == b
            if t.args[0] == '<':
                return a < b
        if t.op == 'call' and t.args[0].op == 'attr' and t.args[0].args[1] in ('lower', 'upper', 'startswith', 'endswith', 'strip', 'casefold'):
            return getattr(ev(t.args[0].args[0]), t.args[0].args[1])(*[ev(x) for x in t.args[1]])
        raise Undecided(show(t))
    try:
        return ev(t)
    except (IndexError, TypeError, AttributeError) as e:
        raise Undecided(str(e))


def builtin_call(t, *names):
    """The argument of a call of a builtin, else None."""
    if t.op == 'call' and t.args[0].op in ('builtin', 'ext') and t.args[0].args[0] in names and len(t.args[1]) == 1:
        return t.args[1][0]
    return None


CONVERT = ('int', 'float', 'fractions.Fraction')


def stringed(core):
    x = builtin_call(core, 'str', 'repr')
    return core if x is None else x


class Types:
    """The contexts and tokens that lead to an element type."""

    def __init__(self, c, m, H, L, R, trans):
        self.c, self.m, self.H, self.L, self.R, self.trans = c, m, H, L, R, trans
        self.whole = {}         # Class -> [lexicons whose whole contents are the head]
        for f, cls in H.functions():
            if cls is None or len(f.params()) < 2:
                continue
            try:
                I, r = H.run(f, cls)
            except AnalysisBroken:
                raise
            lexs = [x for lc, tc in trans.items() if tc is cls for x in R if x.cls is lc and x.name == f.name]
            if not lexs:
                continue
            items = param(f.params()[1])
            for x in H.made(r):
                if x.head is items or x.head is not None and x.head.op == 'call' and x.head.args[1] and x.head.args[1][0] is items:
                    for k, _ in x.classes():
                        if k is not None:
                            self.whole.setdefault(k, []).extend(lexs)

    def first_words(self, k):
        """The texts of single tokens that are read as the type."""
        out = set()
        for x in self.R:
            for tk in self.R[x][1]:
                if tk.action == 'Boolean' or str(tk.action).endswith('.Boolean') or str(tk.action).endswith('.Bool'):
                    out.update(X03.words_of(self.m, tk) or ())
        return out if k.name == 'Bool' else set()

    def edges(self, k):
        """[(texts of the head tokens by position, texts of the tail tokens)] by lexicon."""
        out = []
        for x in dict.fromkeys(self.whole.get(k, ())):
            heads, tails = {}, set()
            for tk in self.R[x][1]:
                ws = X03.words_of(self.m, tk)
                if tk.edge == 'head':
                    heads.setdefault(tk.pos, []).append(ws)
                elif tk.edge == 'tail':
                    tails.update(ws or ())
            out.append((x, heads, tails))
        return out


def check(c):
    m = c.model
    H = Handlers(m)
    E = H.E
    L, R, trans, documented = X03.reachable(m)
    T = Types(c, m, H, L, R, trans)
    runs = {}

    def run(f, k):
        key = (f, k)
        if key not in runs:
            I = node_interp(m)
            runs[key] = (I, I.run(f, cls=k))
        return runs[key]

    n = 0
    for k in sorted(E.all, key=lambda k: (k.module.name, k.name)):
        if not k.issub(E.text) or k is E.text or k is E.mapped:
            continue
        rd, wr = k.lookup('read_head'), k.lookup('write_head')
        c.unit('type')
        name = '{}.{}'.format(k.module.name.rpartition('.')[2], k.name)
        if k.issub(E.mapped):
            c.guard('mapping', name, lambda: mapping(c, E, k, name))
            if rd[0] is E.mapped and wr[0] is E.mapped:
                continue
        if not any(x[0] is k for x in (rd, wr)) and not (k in T.whole or any(v[0] is k for v in [k.lookup('radix') or (None,)])):
            continue
        c.guard('pair', name, lambda: pair(c, m, E, T, run, k, name, rd[2], wr[2]))
    base = E.mapped
    c.guard('mapping', 'MappingElement', lambda: pair(c, m, E, T, run, base, 'MappingElement', base.lookup('read_head')[2], base.lookup('write_head')[2]))
    c.guard('duration', 'duration', lambda: durations(c, m))
    c.guard('radix', 'Number', lambda: radix(c, m, H, L, R, trans))
    c.floor('affix', 20)
    c.floor('core', 20)
    c.floor('mapping', 30)
    c.floor('radix', 8)
    c.floor('duration', 3)


def mapping(c, E, k, name):
    p = E.pairs(k)
    if p is None:
        if k.lookup('mapping')[0] is not E.mapped:
            c.unknown('mapping', name, 'the table of values is not understood')
        return
    if not p:
        return
    where = k.where
    texts = [a for a, b in p]
    values = [repr(b) for a, b in p]
    for x in sorted({v for v in values if values.count(v) > 1}):
        c.ob('mapping', '{} value {}'.format(name, x), False, 'two texts for one value: ' + ', '.join(sorted(a for a, b in p if repr(b) == x)), where)
    c.ob('mapping', name + ' values', len(set(values)) == len(values), 'two texts for one value', where)
    c.ob('mapping', name + ' texts', len(set(texts)) == len(texts), 'one text for two values', where)


def pair(c, m, E, T, run, k, name, rf, wf):
    Ir, rr = run(rf, k)
    Iw, rw = run(wf, k)
    origin = param(rf.params()[-1])
    rt, wt = rr.value, rw.value
    where = rf.where
    if rt is None or wt is None:
        c.unit('never')       # never read or never written
        return
    if rt is NONE and rr.raises:
        return
    # table
    if rt.op == 'item' and wt.op == 'item' and rt.args[0].op == 'attr' and wt.args[0].op == 'attr':
        ok = rt.args[1].op == 'attr' and rt.args[1].args[1] == 'text' and rt.args[1].args[0] is mk('item', origin, const(0)) and wt.args[1] is HEAD
        c.ob('core', name, ok and rt.args[0].args[1] == 'mapping' and wt.args[0].args[1] == '_inverted_mapping', 'does not look up the text of the token in the table, and the value in the inverted table', where)
        c.guard('core', name + ' table', lambda: inverted(c, m, E, name))
        return
    special, rest = written(wt, rw)
    tpl = None
    if len(rest) == 1:
        tpl = template(rest[0], rw)
    # fixed texts for a truth value
    if wt.op == 'ite' and (lit(wt.args[0])[0] is mk('truth', HEAD) or lit(wt.args[0])[0] is HEAD):
        p = lit(wt.args[0])[1]
        for val, x in ((p, wt.args[1]), (not p, wt.args[2])):
            if not is_const(x):
                c.unknown('core', name, 'written as ' + show(x))
                return
            try:
                got = fold(rt, origin, x.args[0])
            except Undecided as e:
                c.unknown('core', name, 'read as ' + str(e))
                return
            c.ob('core', '{} {}'.format(name, val), got is val, '{} is written as {}, and that is read as {}'.format(val, x.args[0], got), where)
        c.ob('affix', name, True, '', where)
        words = {val: x.args[0] for val, x in ((p, wt.args[1]), (not p, wt.args[2]))}
        for w in sorted(T.first_words(k)):
            val = [v for v, x in words.items() if w.lower() == x.lower() or w.lower().startswith(x.lower())]
            if len(val) == 1:
                try:
                    got = fold(rt, origin, w)
                except Undecided as e:
                    continue
                c.ob('core', '{} {}'.format(name, w), got is val[0], '{} is read as {}'.format(w, got), where)
        return
    if tpl is None:
        # only known by tables
        if m.cls('dom.scm.Number') in k.mro():
            return
        if name.endswith('lily.Duration') or name == 'lily.Duration':
            durations_used(c, name, rt, wt, rw, origin, where)
            return
        c.unknown('core', name, 'written as ' + show(wt))
        return
    prefix, core, suffix = tpl
    # scaling: product over the tokens
    if rt.op == 'mu':
        product(c, Ir, rr, rt, origin, name, prefix, core, suffix, special, where)
        return
    # reading: the first token that is not one of the affixes
    q = picked(rt, origin)
    if q is not None:
        c.ob('affix', name, all(x in q for x in prefix + suffix) and set(q) == set(prefix + suffix), 'writes {!r} and {!r} around the value, but reading leaves out {!r}'.format(prefix, suffix, q), where)
        c.ob('core', name, core is HEAD, 'the written value is ' + show(core), where)
        return
    # find the text in the reading term
    found = None
    inner = set(subterms(rt))
    for e in rr.events:
        for x in e.args:
            if isinstance(x, T_):
                inner |= set(subterms(x))
    for t in [rt] + sorted(inner, key=lambda t: (len(show(t)), show(t)), reverse=True):
        s = source(t, Ir, rr, origin)
        if s is not None:
            found = t, s
            break
    if found is None:
        c.unknown('affix', name, 'read as ' + show(rt))
        return
    text, s = found
    kind = escapes_per_token(s) if s.item else 'plain'
    affixes(c, m, T, k, name, s, prefix, suffix, where)
    cores(c, m, Ir, rr, k, name, rt, text, kind, core, prefix, suffix, special, origin, where, T)


def affixes(c, m, T, k, name, s, prefix, suffix, where):
    if s.first == 0:
        if not s.only and s.skip:
            c.unknown('affix', name, 'leaves out tokens by text')
            return
        c.ob('affix', name + ' before', s.lead == len(prefix), 'writes {!r} before the value, but reading leaves out {} characters'.format(prefix, s.lead), where)
        if s.end is None:
            c.ob('affix', name + ' behind', s.trail == len(suffix), 'writes {!r} behind the value, but reading leaves out {} characters'.format(suffix, s.trail), where)
            return
    if s.lead or s.trail:
        c.unknown('affix', name, 'leaves out tokens and characters')
        return
    edges = T.edges(k)
    if not edges:
        # no contexts: each token left out stands for one opening text
        c.ob('affix', name + ' before', bool(prefix) == bool(s.first), 'writes {!r} before the value, but reading leaves out {} tokens'.format(prefix, s.first), where)
        tails = None
    for x, heads, tails in edges:
        if s.first:
            texts = {''}
            for i in range(s.first):
                got = heads.get(i)
                if not got:
                    # the next token is not part of the fixed opening of the context
                    texts = None
                    break
                if any(w is None for w in got):
                    texts = False
                    break
                texts = {a + b for a in texts for w in got for b in w}
            if texts is None:
                c.ob('affix', '{} before {}'.format(name, x.name), False, 'leaves out {} tokens, but {} opens with {} fixed tokens'.format(s.first, x.name, len(heads)), where)
            elif texts is False:
                c.unit('free opening')
                c.ob('affix', '{} before {}'.format(name, x.name), bool(prefix), 'writes nothing for the {} tokens left out'.format(s.first), where)
            else:
                c.ob('affix', '{} before {}'.format(name, x.name), prefix in texts,
                     'writes {!r} before the value, but the {} tokens left out read {}'.format(prefix, s.first, ' or '.join(sorted(map(repr, texts))[:3])), where)
    end = s.end[0] if s.end else s.skip[0] if s.skip else ''
    c.ob('affix', name + ' behind', end == suffix, 'writes {!r} behind the value, but reading leaves out {!r}'.format(suffix, end), where)
    if s.end is not None:
        for x, heads, tails in edges:
            c.ob('affix', '{} closing {}'.format(name, x.name), not tails or end in tails, '{} is not closed by {!r}'.format(x.name, end), where)
            opening = [w for ws in heads.get(0, ()) for w in ws or ()]
            if end in opening:
                c.ob('affix', '{} unclosed {}'.format(name, x.name), s.end[1], 'without closing token the opening token is taken for the closing one', where)


def cores(c, m, I, r, k, name, rt, text, kind, core, prefix, suffix, special, origin, where, T):
    conv = rt
    ob = lambda ok, msg: c.ob('core', name, ok, msg, where)
    for v, t in special:
        c.unit('special value')
    esc = escaped(core)
    sub = patterned(rt)
    # identity
    if rt is text and kind == 'plain' and stringed(core) is HEAD:
        ob(core is HEAD or not numeric(k), 'the text read is not a number, as the type needs')
        return
    # escapes
    if esc is not None:
        cs, subj = esc
        if subj is not HEAD:
            c.unknown('core', name, 'written as ' + show(core))
            return
        ob(prefix[-1:] != suffix or suffix in cs, 'the closing {!r} is not escaped in the value'.format(suffix))
        c.ob('core', name + ' backslash', '\\' in cs, 'a backslash in the value is not escaped', where)
        if rt is text and kind == 'escape':
            c.ob('escape', name, cs <= token_escapes(m, T, k, name), 'an escape that is written is not read as an escape', where)
            lossy(c, m, T, k, name, where)
            return
        if sub is not None and sub[2] is text and is_const(sub[0]):
            back = backslashed(sub[0].args[0])
            if back is None:
                c.unknown('escape', name, 'read with ' + show(sub[0]))
                return
            c.ob('escape', name, cs <= back, 'the escapes {} that are written are not read'.format(' '.join(sorted(cs - back))), where)
            got = replaced(I, r, sub[1], cs)
            if got is None:
                c.unknown('escape', name + ' values', 'read with ' + show(sub[1]))
            else:
                bad = sorted(x for x in cs if got.get(x) != x)
                c.ob('escape', name + ' values', not bad, 'the escaped {} is read as another text'.format(' '.join(bad)), where)
            return
        c.ob('escape', name, False, 'escapes are written, but not read', where)
        return
    if kind == 'escape' or sub is not None:
        c.ob('escape', name, stringed(core) is not HEAD, 'escapes are read, but not written', where)
        return
    # the closing text inside the value
    rep = replacement(core)
    if rep is not None and rt is text:
        a, b = rep
        ob(b.replace(suffix + prefix, '') == a and a == suffix, 'the text {!r} is replaced by one that is not read back as the same'.format(a))
        return
    x = builtin_call(core, 'html.escape')
    if x is None and core.op == 'call' and core.args[0].op == 'ext' and core.args[0].args[0] == 'html.escape':
        x = core.args[1][0]
        ob(False, 'quotes in the value are not escaped' if x is HEAD else 'written as ' + show(core))
        return
    if x is not None:
        kw = dict(y for y in core.args[2] if isinstance(y, tuple) and len(y) == 2) if core.op == 'call' else {}
        ob(rt is text and x is HEAD and kw.get('quote', TRUE) is not FALSE, 'written as ' + show(core))
        return
    # numbers
    got = [x for x, _ in leaves(rt)]
    if got and all(builtin_call(x, *CONVERT) is text for x in got):
        ob(stringed(core) is HEAD and core is not HEAD, 'a number is written as ' + show(core))
        return
    # joined and split
    j = joined(core)
    sp = splitted(I, r, rt, text)
    if j is not None and sp is not None:
        ob(j[0] == sp[0], 'written with {!r} between the parts, but split at {!r}'.format(j[0], sp[0]))
        c.ob('core', name + ' parts', j[1] == 'str' and sp[1] in CONVERT or j[1] is None and sp[1] is None, 'the parts are written with {} but read with {}'.format(j[1], sp[1]), where)
        return
    # counts
    n = counted(rt, text)
    w = repeated(core)
    if n is not None and w is not None:
        ob(n == w, 'read as number of {!r} minus number of {!r}, written as {!r} if positive and {!r} if negative'.format(*(n + w)))
        return
    if rt is text and stringed(core) is not HEAD:
        c.unknown('core', name, 'written as ' + show(core))
        return
    c.unknown('core', name, 'read as {}, written as {}'.format(show(rt), show(core)))


def numeric(k):
    """Whether a type only accepts numbers."""
    f = k.lookup('check_head')
    return bool(f) and f[1] == 'method' and any(isinstance(n, ast.Name) and n.id in ('int', 'float') for n in ast.walk(f[2].node))


def token_escapes(m, T, k, name):
    out = set()
    for x, cs in escape_chars(m, T, k):
        out |= cs
    return out or {'\\', '"'}


def escape_chars(m, T, k):
    """The characters after the backslash in the escape tokens of the contexts of a type."""
    out = []
    for x in dict.fromkeys(T.whole.get(k, ())):
        for tk in T.R[x][1]:
            if 'Escape' in str(tk.action):
                ws = X03.words_of(m, tk)
                if ws:
                    out.append((x, {w[1:] for w in ws if w.startswith('\\')}))
    return out


def lossy(c, m, T, k, name, where):
    """Escapes that stand for another character than the one behind the backslash."""
    for x, cs in escape_chars(m, T, k):
        bad = sorted(w for w in cs if w.isalnum())
        c.ob('escape', '{} meaning'.format(name), not bad, 'the escapes {} stand for another character, but are read as the letter, and written without backslash'.format(' '.join('\\' + b for b in bad)), where)


def replaced(I, r, fn, cs):
    """{char: text} what a replacement makes of backslash + char."""
    if is_const(fn) and fn.args[0] in ('\\1', '\\g<1>'):
        return {x: x for x in cs}
    if fn.op != 'closure':
        return None
    node = fn.args[0].node
    body = node.body if isinstance(node, ast.Lambda) else None
    if body is None:
        stmts = [s for s in node.body if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))]
        if len(stmts) == 1 and isinstance(stmts[0], ast.Return):
            body = stmts[0].value
    if body is None:
        return None
    arg = node.args.args[0].arg

    def is_group(e):
        if isinstance(e, ast.Subscript) and isinstance(e.value, ast.Name) and e.value.id == arg:
            return isinstance(e.slice, ast.Constant) and e.slice.value == 1
        return isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr == 'group' and isinstance(e.func.value, ast.Name) \
            and e.func.value.id == arg and len(e.args) == 1 and isinstance(e.args[0], ast.Constant) and e.args[0].value == 1
    if is_group(body):
        return {x: x for x in cs}
    if isinstance(body, ast.Call) and isinstance(body.func, ast.Attribute) and body.func.attr == 'get' and len(body.args) == 2 \
            and is_group(body.args[0]) and is_group(body.args[1]):
        d = table_of(I, r, body.func.value, fn)
        if d is None:
            return None
        return {x: d.get(x, x) for x in cs}
    return None


def table_of(I, r, e, fn):
    """A constant dictionary an expression in a closure denotes."""
    try:
        return ast.literal_eval(e)
    except (ValueError, TypeError):
        pass
    if isinstance(e, ast.Name):
        f = fn.args[0]
        outer = getattr(f, 'outer', None)
        for g in [x for x in (outer,) if x is not None] + [y for y in I.model.all_funcs() if y.module is f.module and any(n is f.node for n in ast.walk(y.node))]:
            vals = [n.value for n in ast.walk(g.node) if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == e.id for t in n.targets)]
            if len(vals) == 1:
                try:
                    return ast.literal_eval(vals[0])
                except (ValueError, TypeError):
                    return None
        try:
            return I.model.literal(f.module, e)
        except ValueError:
            return None
    return None


def replacement(core):
    if core.op == 'call' and core.args[0].op == 'attr' and core.args[0].args[1] == 'replace' and core.args[0].args[0] is HEAD \
            and len(core.args[1]) == 2 and all(is_const(x) for x in core.args[1]):
        return tuple(x.args[0] for x in core.args[1])
    return None


def joined(core):
    """(separator, conversion of the parts) of a written sequence."""
    if core.op == 'call' and core.args[0].op == 'attr' and core.args[0].args[1] == 'join' and is_const(core.args[0].args[0]) and len(core.args[1]) == 1:
        x = core.args[1][0]
        sep = core.args[0].args[0].args[0]
        if x is HEAD:
            return sep, None
        if x.op == 'lazy' and x.args[0] == 'map' and x.args[2] is HEAD and x.args[1].op == 'builtin':
            return sep, x.args[1].args[0]
        return sep, 'str'
    if core.op == 'call' and core.args[0].op == 'attr' and core.args[0].args[1] == 'format' and is_const(core.args[0].args[0]):
        fmt, args = core.args[0].args[0].args[0], core.args[1]
        parts = fmt.split('{}')
        if len(parts) == 3 and not parts[0] and not parts[2] and (len(args) == 1 and args[0] is mk('star', HEAD)
                or len(args) == 2 and all(a is mk('item', HEAD, const(i)) for i, a in enumerate(args))):
            return parts[1], 'str'
    return None


def splitted(I, r, rt, text):
    """(separator, conversion of the parts) of a value read by splitting."""
    for e in r.events:
        if e.kind == 'call' and e.args[0].op == 'attr' and e.args[0].args[0] is text and e.args[0].args[1] in ('split', 'partition') and e.args[1] and is_const(e.args[1][0]):
            sep = e.args[1][0].args[0]
            conv = None
            for x in r.events:
                if x.kind == 'call' and x.args[0].op in ('builtin', 'ext') and x.args[0].args[0] in CONVERT:
                    conv = x.args[0].args[0]
            return sep, conv
    for t in subterms(rt):
        if t.op == 'lazy' and t.args[0] == 'map' and t.args[2].op == 'call' and t.args[2].args[0] is mk('attr', text, 'split') and t.args[2].args[1] and is_const(t.args[2].args[1][0]):
            return t.args[2].args[1][0].args[0], t.args[1].args[0] if t.args[1].op in ('builtin', 'ext') else None
    return None


def counted(t, text):
    """(a, b) for count(a) - count(b)."""
    def cnt(x):
        if x.op == 'call' and x.args[0] is mk('attr', text, 'count') and len(x.args[1]) == 1 and is_const(x.args[1][0]):
            return x.args[1][0].args[0]
        return None
    if t.op == 'bin' and t.args[0] == '-':
        a, b = cnt(t.args[1]), cnt(t.args[2])
        if a and b:
            return a, b
    if t.op == 'bin' and t.args[0] == '+' and t.args[2].op == 'neg':
        a, b = cnt(t.args[1]), cnt(t.args[2].args[0])
        if a and b:
            return a, b
    return None


def repeated(t):
    """(a, b) for a text of the head times a if positive, minus the head times b if negative."""
    def rep(x):
        if x is const(''):
            return 0, ''
        if x.op == 'bin' and x.args[0] == '*':
            for a, b in ((x.args[1], x.args[2]), (x.args[2], x.args[1])):
                if is_const(a) and isinstance(a.args[0], str):
                    if b is HEAD:
                        return 1, a.args[0]
                    if b.op == 'neg' and b.args[0] is HEAD or b.op == 'bin' and b.args[0] == '-' and b.args[1] is const(0) and b.args[2] is HEAD:
                        return -1, a.args[0]
                    if b.op == 'call' and callee_name(b.args[0]) == 'abs' and b.args[1][0] is HEAD:
                        return 2, a.args[0]
        return None
    if t.op == 'ite':
        c, p = lit(t.args[0])
        pos, neg = (t.args[1], t.args[2]) if p else (t.args[2], t.args[1])
        if c.op == 'cmp' and c.args[0] in ('<', '<='):
            if c.args[1] is HEAD and c.args[2] is const(0):
                pos, neg = neg, pos
            elif not (c.args[2] is HEAD and c.args[1] is const(0)):
                return None
            a, b = rep(pos), rep(neg)
            if a is None or b is None:
                return None
            if a[0] not in (1, 2) or b[0] not in (-1, 2):
                return ('', '')
            return a[1], b[1]
    if t.op == 'bin' and t.args[0] == '+':
        a, b = rep(t.args[1]), rep(t.args[2])
        if a and b and {a[0], b[0]} == {1, -1}:
            return (a[1], b[1]) if a[0] == 1 else (b[1], a[1])
    return None


def picked(t, origin):
    """The texts left out when the first token not being one of them is read."""
    for v, conds in leaves(t):
        if v.op == 'attr' and v.args[1] == 'text' and v.args[0].op in ('elem', 'each') and v.args[0].args[0] is origin:
            no = [x.args[0] for c, p in known(dict(conds)).items() if not p and c.op == 'cmp' and c.args[0] == '==' for x in c.args[1:] if is_const(x) and v in c.args[1:]]
            if no:
                return ''.join(no)
            for c, p in known(dict(conds)).items():
                if c.op == 'cmp' and c.args[0] == 'in' and c.args[1] is v and not p:
                    x = c.args[2]
                    if is_const(x):
                        return x.args[0]
                    if x.op in ('tuple', 'set') and all(is_const(y) for y in x.args):
                        return ''.join(y.args[0] for y in x.args)
    return None


def product(c, I, r, t, origin, name, prefix, core, suffix, special, where):
    """A value that is the product of the numbers in the tokens."""
    init = I.mu[t][0] if t in I.mu else None
    nxt = mu_next(I, t)
    each = [x for x in subterms(nxt) if x.op in ('elem', 'each') and x.args[0] is origin]
    if not each or init is None:
        c.unknown('core', name, 'read as ' + show(nxt))
        return
    e = each[0]
    text = mk('attr', e, 'text')
    skip = set()
    ok = init is const(1)
    for v, conds in leaves(nxt):
        if v is t:
            for cnd, p in conds:
                cnd, q = lit(cnd)
                if cnd.op == 'cmp' and cnd.args[0] == '==' and (p if q else not p):
                    skip.update(x.args[0] for x in cnd.args[1:] if is_const(x))
        elif v.op == 'bin' and v.args[0] == '*' and t in v.args[1:]:
            o = v.args[2] if v.args[1] is t else v.args[1]
            ok = ok and builtin_call(o, *CONVERT) is text
        else:
            ok = False
    c.ob('core', name, ok, 'the value read is not the product of the numbers in the tokens', where)
    c.ob('affix', name + ' before', skip == {prefix}, 'writes {!r} before the value, but reading leaves out {}'.format(prefix, ' '.join(map(repr, sorted(map(str, skip))))), where)
    c.ob('affix', name + ' behind', not suffix, 'writes {!r} behind the value'.format(suffix), where)
    x = builtin_call(core, *CONVERT)
    c.ob('core', name + ' written', core is HEAD or stringed(core) is HEAD or x is HEAD and 'int' != callee_name(core.args[0]) and 'float' != callee_name(core.args[0]),
         'the value is written as ' + show(core), where)
    for v, s in special:
        c.ob('core', '{} value {}'.format(name, v), s != '' or v == 1, 'the value {} is not written'.format(v), where)


def inverted(c, m, E, name):
    """The inverted table is made from the table by swapping texts and values."""
    k = E.mapped
    f = k.methods.get('__init_subclass__')
    if f is None:
        c.unknown('core', name + ' table', 'no hook that makes the inverted table')
        return
    ok = None
    for n in ast.walk(f.node):
        if isinstance(n, ast.Assign) and any(isinstance(t, ast.Attribute) and t.attr == '_inverted_mapping' for t in n.targets):
            v = n.value
            gen = None
            if isinstance(v, ast.DictComp):
                key, val, gen = v.key, v.value, v.generators
            elif isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == 'dict' and v.args and isinstance(v.args[0], (ast.GeneratorExp, ast.ListComp)) \
                    and isinstance(v.args[0].elt, ast.Tuple) and len(v.args[0].elt.elts) == 2:
                (key, val), gen = v.args[0].elt.elts, v.args[0].generators
            if gen is None:
                continue
            g = gen[0]
            if isinstance(g.target, ast.Tuple) and len(g.target.elts) == 2 and isinstance(key, ast.Name) and isinstance(val, ast.Name) and all(isinstance(x, ast.Name) for x in g.target.elts):
                a, b = (x.id for x in g.target.elts)
                src = g.iter
                items = isinstance(src, ast.Call) and isinstance(src.func, ast.Attribute) and src.func.attr == 'items' and isinstance(src.func.value, ast.Attribute) and src.func.value.attr == 'mapping'
                if items:
                    ok = (key.id, val.id) == (b, a) and not g.ifs
    if ok is None:
        c.unknown('core', name + ' table', 'the way the inverted table is made is not understood')
    else:
        c.ob('core', name + ' table', ok, 'the inverted table is not the table with texts and values swapped', f.where)


# -- durations
def durations_used(c, name, rt, wt, rw, origin, where):
    """The element reads with from_string() and writes with to_string(): decided on those."""
    c.unit('durations')


def affine(t, x):
    """(a, b) for a + b * x, or None."""
    if t is x:
        return 0, 1
    if is_const(t) and isinstance(t.args[0], int):
        return t.args[0], 0
    if t.op == 'neg':
        p = affine(t.args[0], x)
        return p and (-p[0], -p[1])
    if t.op == 'bin' and t.args[0] in '+-':
        p, q = affine(t.args[1], x), affine(t.args[2], x)
        if p is None or q is None:
            return None
        s = 1 if t.args[0] == '+' else -1
        return p[0] + s * q[0], p[1] + s * q[1]
    if t.op == 'bin' and t.args[0] == '*':
        p, q = affine(t.args[1], x), affine(t.args[2], x)
        if p is None or q is None or p[1] and q[1]:
            return None
        return p[0] * q[0], p[0] * q[1] + p[1] * q[0]
    if t.op == 'inv':
        p = affine(t.args[0], x)
        return p and (-1 - p[0], -p[1])
    return None


def durations(c, m):
    rd, wr = m.func('duration.from_string'), m.func('duration.to_string')
    I = Interp(m, opaque={'log_dotcount', 'duration'})
    w = I.run(wr)
    J = Interp(m, opaque={'log_dotcount', 'duration'})
    r = J.run(rd)
    calls = [t for t in subterms(r.value) if t.op == 'call' and callee_name(t.args[0]) == 'duration']
    if not calls or len(calls[0].args[1]) < 2:
        c.unknown('duration', 'read', 'read as ' + show(r.value))
        return
    logt, dots = calls[0].args[1][:2]
    split = [t for t in subterms(w.value) if t.op == 'call' and callee_name(t.args[0]) == 'log_dotcount']
    if not split:
        c.unknown('duration', 'written', 'written as ' + show(w.value))
        return
    log, dot = mk('item', split[0], const(0)), mk('item', split[0], const(1))
    # written: names for negative values, powers of two otherwise
    named = power = None
    dotted = None
    for t in subterms(w.value):
        if t.op == 'item' and t.args[0].op == 'tuple' and all(is_const(x) for x in t.args[0].args) and t.args[0].args and log in subterms(t.args[1]):
            named = t
        if t.op == 'bin' and t.args[0] == '<<' and t.args[1] is const(1):
            power = t
        if t.op == 'bin' and t.args[0] == '**' and t.args[1] is const(2):
            power = t
        if t.op == 'bin' and t.args[0] == '*' and any(is_const(x) and isinstance(x.args[0], str) for x in t.args[1:]):
            dotted = t
    idx = [t for t in subterms(logt) if t.op == 'call' and t.args[0].op == 'attr' and t.args[0].args[1] == 'index']
    bits = [t for t in subterms(logt) if t.op == 'call' and t.args[0].op == 'attr' and t.args[0].args[1] == 'bit_length']
    if named is None or not idx:
        c.unknown('duration', 'names', 'written as {}, read as {}'.format(show(w.value), show(logt)))
    else:
        names = [x.args[0] for x in named.args[0].args]
        src = idx[0].args[0].args[0]
        read = [x.args[0] for x in src.args] if src.op == 'tuple' else None
        c.ob('duration', 'names', names == read, 'written from {} but looked up in {}'.format(names, read), rd.where)
        out = affine(named.args[1], log)
        inn = [affine(v, idx[0]) for v, _ in leaves(logt) if idx[0] in subterms(v)]
        if out is None or not inn or inn[0] is None:
            c.unknown('duration', 'position', show(named.args[1]) + ' and ' + show(logt))
        else:
            a, b = out
            p, q = inn[0]
            c.ob('duration', 'position', (a + b * p, b * q) == (0, 1), 'the name at position i is read as a value that is written with position {} + {}i'.format(a + b * p, b * q), wr.where)
    if power is None or not bits:
        c.unknown('duration', 'numbers', 'written as {}, read as {}'.format(show(w.value), show(logt)))
    else:
        out = affine(power.args[2], log)
        inn = [affine(v, bits[0]) for v, _ in leaves(logt) if bits[0] in subterms(v)]
        if out is None or not inn or inn[0] is None:
            c.unknown('duration', 'numbers', show(power) + ' and ' + show(logt))
        else:
            # the bit length of 1 << n is n + 1
            a, b = out
            p, q = inn[0]
            c.ob('duration', 'numbers', (p + q * (a + 1), q * b) == (0, 1), 'the number written is not read as the same length', wr.where)
    sep = [x.args[0] for x in (dotted.args[1:] if dotted is not None else ()) if is_const(x)]
    cnt = [t for t in subterms(dots) if t.op == 'call' and t.args[0].op == 'attr' and t.args[0].args[1] == 'count']
    if not sep or not cnt or not is_const(cnt[0].args[1][0]):
        c.unknown('duration', 'dots', 'written as {}, read as {}'.format(show(w.value), show(dots)))
    else:
        times = [x for x in dotted.args[1:] if not is_const(x)]
        c.ob('duration', 'dots', sep[0] == cnt[0].args[1][0].args[0] and times == [dot], 'the dots written are not the dots counted', wr.where)


# -- Scheme numbers
def radix(c, m, H, L, R, trans):
    k = m.cls('dom.scm.Number')
    E = H.E
    prefix, fmt = E.value(k, '_prefix'), E.value(k, '_fmt')
    if not isinstance(prefix, dict) or not isinstance(fmt, dict):
        c.unknown('radix', 'tables', 'not understood')
        return
    letters = {2: 'b', 8: 'o', 10: 'd', 16: 'x'}
    where = k.where
    for n in sorted(fmt):
        c.ob('radix', 'digits {}'.format(n), fmt[n].lower() == letters.get(n), 'the digits are written with format {!r}'.format(fmt[n]), where)
    subs = [x for x in m.subclasses(k)]
    for x in sorted(subs, key=lambda x: x.name):
        v = E.value(x, 'radix')
        c.ob('radix', 'class ' + x.name, v in fmt and v in prefix, 'radix {} has no prefix and format'.format(v), x.where)
    # the class that is chosen for a radix
    for lc, tc in trans.items():
        r = tc.lookup('_radix_mapping')
        if not r or r[1] != 'assign' or not isinstance(r[2], ast.Dict):
            continue
        for a, b in zip(r[2].keys, r[2].values):
            n = m.literal(r[0].module, a)
            x = m.resolve_expr(r[0].module, b)
            if isinstance(x, Class):
                c.ob('radix', '{} {}'.format(tc.name, n), E.value(x, 'radix') == n, '{} has radix {}'.format(x.name, E.value(x, 'radix')), r[0].where)
    for n, p in sorted(prefix.items()):
        want = {2: '#b', 8: '#o', 10: ('', '#d'), 16: '#x'}[n]
        c.ob('radix', 'prefix {}'.format(n), p.lower() in want if isinstance(want, tuple) else p.lower() == want, 'written with prefix {!r}'.format(p), where)
