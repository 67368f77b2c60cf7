SEEDS = {
'X03-figure-context': dict(property='X03', edits=[('quickly/lang/lilypond.py',
'''    @_context("chord", "figure")''', '''    @_context("chord", "figurebracket")''')], demo="""
from quickly.dom import read, lily
d = read.lily_document('\\\\figures { <6 4>4. }')
fs = list(d // lily.Figure)
assert len(fs) == 1, d.dump()
# the duration belongs to the figure
assert len(list(fs[0] / lily.Duration)) == 1, 'no duration'
""", needs='figured bass with a duration',
   breaks='the handler for figures is registered for a context that never reaches the builder; the figure is yielded as a finished element, its duration becomes an unpitched note'),
'X03-skip-action': dict(property='X03', edits=[('quickly/lang/lilypond.py',
'''    @_action(a.Delimiter.Lyric.LyricSkip)''', '''    @_action(a.Delimiter.Lyric.LyricExtender.Skip)''')], demo="""
from quickly.dom import read, lily
d = read.lily_document('\\\\lyricmode { a _ b }')
assert len(list(d // lily.LyricSkip)) == 1, 'skip lost'
""", needs='a skip in lyric mode', breaks='lyric skips are dropped'),

'X01-html-variant': dict(property='X01', edits=[('quickly/lang/html.py',
"""class HtmlAdHocTransform(base.AdHocTransform, HtmlTransform):""", """class HtmlAdHocTransform(HtmlTransform, base.AdHocTransform):""")], demo="""
from quickly.dom import read, htm
n = read.htm('<p>Text</p>')
for t in n // htm.Text:
    assert not hasattr(t, 'head_origin'), 'fragment remembers positions of another text'
""", needs='an HTML fragment read for insertion in another document', breaks='fragments keep their origin'),
'X01-scheme-lily-tail': dict(property='X01', edits=[('quickly/lang/lilypond.py',
"""        tail = (items.pop(),) if items[-1] == '#}' else ()
        return self.factory(scm.LilyPond, head, tail, *self.create_music(items[1:]))""",
"""        if items[-1] == '#}':
            items.pop()
        return self.factory(scm.LilyPond, head, (), *self.create_music(items[1:]))""")], demo="""
from quickly.dom import read, scm
d = read.lily_document('#(a #{ c d #} )', True)
for n in d // scm.LilyPond:
    assert n.tail_origin and n.tail_origin[0] == '#}', 'closing delimiter forgotten'
    break
else:
    raise AssertionError(d.dump())
""", needs='LilyPond music inside a Scheme expression', breaks='the closing delimiter has no position, edits write a second one'),

'X02-end-kept': dict(property='X02', edits=[('quickly/lang/latex.py',
"""            items = items[:-4]""", """            items = items[:-3]""")], demo="""
from quickly.dom import read, tex
d = read.tex_document('\\\\begin{a}text\\\\end{a}')
n = [c for c in d // tex.Command if c.head == 'end' or c.head == '\\\\end']
assert len(n) == 1, d.write()
""", needs='a finished environment', breaks='the end command is read twice'),
'X02-option-step': dict(property='X02', edits=[('quickly/lang/latex.py',
"""                cmd.extend(get_options(items[i+1].obj[0]))
                i += 2
            # braced""", """                cmd.extend(get_options(items[i+1].obj[0]))
                i += 1
            # braced""")], demo="""
from quickly.dom import read, tex
try:
    d = read.tex_document('\\\\documentclass[a4paper]{article}')
except Exception as e:
    raise AssertionError('reading fails: %r' % e)
assert d.write() == '\\\\documentclass[a4paper]{article}', d.write()
c = next(d // tex.Command)
assert list(c / tex.Brace), d.dump()
""", needs='a command with an option', breaks='the options context is read again as text, the argument is lost'),
'X02-lone-quote': dict(property='X02', edits=[('quickly/lang/lilypond.py',
"""        tail = (items.pop(),) if items[-1] == ']' else ()
        return self.factory(lily.FigureBracket, head, tail, *self.create_figure(items))""",
"""        tail = (items.pop(),)
        return self.factory(lily.FigureBracket, head, tail, *self.create_figure(items))""")], demo="""
from quickly.dom import read, lily
d = read.lily_document('\\\\figures { <[6 4')
b = next(d // lily.FigureBracket)
assert len(list(b // lily.FigureStep)) == 2, d.write()
""", needs='an unfinished bracket in figured bass', breaks='the last figure is taken as the closing bracket'),

'X07-tempo-table': dict(property='X07', edits=[('quickly/lang/lilypond.py',
"""        lily.TagGroup, lily.Tempo, lily.Time,""", """        lily.TagGroup, lily.Time,"""), ('quickly/lang/lilypond.py',
"""        lily.Set, lily.Simultaneous, lily.Temporary,""", """        lily.Set, lily.Simultaneous, lily.Tempo, lily.Temporary,""")], demo="""
from quickly.dom import read, lily
d = read.lily_document('{ \\\\tempo 4 = 100 c }')
assert list(d // lily.Tempo), 'no tempo'
""", needs='a tempo command', breaks='the command is looked up in the table for keywords, but the lexer says it is a builtin, so it is read as generic function'),
'X07-vshape': dict(property='X07', edits=[('quickly/lang/lilypond.py',
"""lily.VShape, (token,)""", """lily.Shape, (token,)""")], demo="""
from quickly.dom import read, lily
d = read.lily_document("{ c-\\\\vshape #'((0 . 0)) ( d) }")
assert list(d // lily.VShape), d.dump()
assert 'vshape' in d.write(), d.write()
""", needs='a vshape event', breaks='read as shape command'),

'X06-scaling-last': dict(property='X06', edits=[('quickly/dom/lily.py',
"""                scaling *= fractions.Fraction(t.text)""", """                scaling = fractions.Fraction(t.text)""")], demo="""
from quickly.dom import read, lily
d = read.lily_document('{ c4*2*1/3 }')
s = next(d // lily.DurationScaling)
assert s.head == __import__('fractions').Fraction(2, 3), s.head
""", needs='a duration with more than one scaling', breaks='only the last scaling is read'),
'X06-bool-case': dict(property='X06', edits=[('quickly/dom/scm.py',
"""        return origin[0].text[1] in 'tT'""", """        return origin[0].text[1] == 't'""")], demo="""
from quickly.dom import read, scm
d = read.scm_document('(list #T #f)')
a, b = d // scm.Bool
assert a.head is True and b.head is False, (a.head, b.head)
""", needs='a Scheme boolean in upper case', breaks='#T is read as false and written as #f'),
'X06-octave-check': dict(property='X06', edits=[('quickly/dom/lily.py',
"""        return '=' + pitch.octave_to_string(self.head)""", """        octave = pitch.octave_to_string(self.head)
        return '=' + octave if octave else ''""")], demo="""
from quickly.dom import read, lily
d = read.lily_document('\\\\relative { c4 d= }')
n = next(d // lily.OctCheck)
n.head = 1
n.head = 0
assert n.write_head() == '=', n.write_head()
""", needs='an octave check without octave', breaks='the octave check is not written'),

'H01-filled-box': dict(property='H01', edits=[('quickly/dom/markup.py',
"""    return _c('filled-box', _pair(x1, x2), _pair(y1, y2), _a(blot))""", """    return _c('filled-box', _pair(x1, y1), _pair(x2, y2), _a(blot))""")], demo="""
import quickly.dom.markup as mm
t = mm.filled_box(1, 2, 3, 4, 5).write()
assert t == "\\\\filled-box #'(1 . 3) #'(2 . 4) #5", t
""", needs='a filled box that is no square at the origin', breaks='corner and size are mixed up'),
'H01-three-markups': dict(property='H01', edits=[('quickly/dom/markup.py',
"""_c(n, *map(_auto_arg, (arg1, arg2)), _create_list(text))""", """_c(n, _auto_arg(arg1), _create_list((arg2, *text)))""")], demo="""
import quickly.dom.markup as mm
e = mm.general_align(1, 2, 'text')
assert len(e) == 3, e.dump()
""", needs='a generated helper for a command with three arguments', breaks='the last two arguments become one list'),
}
