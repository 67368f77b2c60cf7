SEEDS = {
'C01-toggle-twice': dict(property='C01', edits=[('quickly/dom/lily.py',
'''        mapping[r'\\{}Off'.format(p)] = (p, False)''', '''        mapping[r'\\{}Off'.format(p)] = (p, p == "deadNotes")''')], demo="""
from quickly.dom import lily
n = lily.Toggle(('deadNotes', False))
assert n.write() == chr(92) + 'deadNotesOff'
""", needs='one particular toggle switched off', breaks='the table of texts has a value twice and misses another value'),
'C01-order-subtype': dict(property='C01', edits=[('quickly/dom/lily.py',
'''        yield Octave, Accidental, OctCheck, Duration, Articulations, base.Comment''',
'''        yield Octave, element.TextElement, OctCheck, Accidental, Duration, Articulations, base.Comment''')], demo="""
from quickly.dom import lily
n = lily.Note('c', lily.Duration(0.25))
n.add(lily.Accidental('forced'))
n.add(lily.OctCheck(1))
assert n.write() == "c!='4", n.write()
""", needs='an accidental and an octave check on one note', breaks='the order of the parts has a base type before its subtypes'),
}
