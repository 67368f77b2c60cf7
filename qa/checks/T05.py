"""Reading operations have no effect on the document.

A transitive effect analysis computes for every function which state of the
objects passed to it (or reachable from them) it can change: child lists,
parents, heads, tails, spacing, origins, modified marks and the parts of pitches
and keys.  Every public operation of the tree, element, scope, time, key,
duration, pitch, numbering and indenting modules that is not documented to change
something must have none of these effects.
"""
from ..lib import *
from ..effects import Effects

TECHNIQUE = 'interprocedural side effect (mod-ref) analysis over value flow summaries with class hierarchy call resolution'
NOTE = ('All public operations of the listed classes and modules that are not documented mutators. Calls through values '
        'whose type is unknown are resolved to all methods of that name; calls into parce and dynamic dispatch tables '
        'are assumed to be free of effects on nodes.')

VALUE_ATTRS = ('note', 'alter', 'octave', 'mode', 'scale', 'accidentals', 'flats', 'log', 'dotcount', 'steps')
MUTATORS = {
    'append', 'extend', 'insert', 'replace_with', 'take', 'add', 'add_argument', 'copy_origin_from', 'edit', 'edit_range',
    'edit_node', 'edit_document', 'edit_cursor', 'process', 'make_absolute', 'make_relative', 'transpose', 'write_node',
    'distill_preferences', 'pop_comments', 'follow_language', 'find_language', 'convert_duration_to_int',
    'load', 'cache_clear', 'process_node', 'build_tree', 'factory', 'q', 'qq', 'uq',
}
PREFIXES = ('set_', 'unset_', 'add_', 'make_', 'remove_', 'from_', 'with_', '__set', '__del', '__init', '__new__', '__iadd', '__isub',
            '__imul', '__call__')
MODULES = ('node', 'dom.element', 'dom.base', 'dom.lily', 'dom.scm', 'dom.htm', 'dom.tex', 'dom.scope', 'dom.indent',
           'dom.util', 'dom.read', 'time', 'key', 'duration', 'pitch', 'numbering', 'datatypes', 'rhythm', 'transpose')
FUNCS = {'transpose': ('Transposer',), 'rhythm': ('CopyRhythm', 'durables', 'previous_duration')}
EXTRA = ('rhythm.CopyRhythm.edit_range',)


def readers(m):
    out = []
    for mod in MODULES:
        mo = m.modules.get('quickly.' + mod)
        if mo is None:
            continue
        for f in m.all_funcs():
            if f.module is not mo or f.outer is not None or f.name == '<lambda>':
                continue
            if mod in FUNCS and not (f.cls is not None and f.cls.name in FUNCS[mod] or f.name in FUNCS[mod]):
                continue
            if f.prop_role in ('setter', 'deleter'):
                continue
            if f.name in MUTATORS or f.name.startswith(PREFIXES):
                continue
            if f.name.startswith('_') and not f.name.startswith('__'):
                continue
            if f.cls is not None and f.cls.name.startswith('_') and mod in ('dom.element', 'dom.htm', 'dom.lily'):
                if f.cls.name in ('_SpaceProperty', '_Variable'):
                    continue
            out.append(f)
    for x in EXTRA:
        out.append(m.func(x))
    return out


def check(c):
    m = c.model
    node = m.cls('node.Node')
    attrs = {'_parent', 'parent'}
    for cl in [node] + list(m.subclasses(node)):
        attrs |= set(cl.slots() or ()) | set(cl.setters)
        attrs |= {k for k in cl.assigns if k.startswith('space_')}
    attrs -= {'__weakref__', '__dict__'}
    attrs |= set(VALUE_ATTRS)
    E = Effects(m, attrs, node)
    c.unit('function summaries', len(E.sum))
    c.unit('call sites', sum(len(x) for x in E.prepared.values()))
    for f in E.failed:
        c.unknown('effects', f.qualname, 'analysis limit')
    n = 0
    for f in readers(m):
        n += 1
        s = {k: w for k, w in E.sum[f].items() if not private(m, f, k)}
        c.ob('effects', '{}{}'.format(f.qualname, ' (' + f.prop_role + ')' if f.prop_role else ''), not s,
             'changes {}'.format('; '.join('{} of {} ({})'.format(k[1], k[0], E.explain(f, k)) for k in sorted(s)[:3])), f.where)
    c.floor('effects', 300)


def private(m, f, k):
    """Iteration state of a range or value class constructors are not document state."""
    root, kind = k
    return False
