PRE = r'''
import parce, quickly
from fractions import Fraction
from quickly import rhythm
from quickly.dom import read
def run(edit, text, part=None):
    d = parce.Document(quickly.find('lilypond'), text, transformer=True)
    x = d if part is None else parce.Cursor(d, text.index(part), text.index(part) + len(part))
    edit.edit(x)
    return d.text()
'''
SEEDS = {
'R01-scale': dict(property='R01', edits=[('quickly/rhythm.py', '''``prev``."""
        dur = node.duration_scaling
        if dur:
            if dur == prev and self''', '''``prev``."""
        dur = node.duration_scaling
        if dur:
            if prev and dur[0] == prev[0] and self''')], demo=PRE + r'''
got = run(rhythm.RhythmImplicit(), '{ c4*2/3 d4*2/3 e4 f4 }')
assert got == '{ c4*2/3 d e4 f }', got
''', needs='equal durations with another scaling', breaks='a duration that differs in scaling is removed'),
'R01-search': dict(property='R01', edits=[('quickly/dom/lily.py', "        if n.duration_sets_previous:\n            for d in n / Duration:\n                return d.duration()\n", "        for d in n / Duration:\n            return d.duration()\n")], demo=PRE + r'''
got = run(rhythm.RhythmExplicit(), '{ c8 \\skip 2 d e }', 'd e')
assert got == '{ c8 \\skip 2 d8 e8 }', got
''', needs='a selection that starts after a \\skip', breaks='the duration of the skip is taken for the previous duration'),
}
