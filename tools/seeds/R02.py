PRE = r'''
from fractions import Fraction
from quickly.dom import lily
def text(n):
    return n.write()
'''
SEEDS = {
'R02-rest': dict(property='R02', edits=[('quickly/dom/lily.py', '''        yield Octave, Accidental, OctCheck, Duration, RestModifier, Articulations, base.Comment''',
'''        yield Octave, Accidental, Duration, OctCheck, RestModifier, Articulations, base.Comment''')], demo=PRE + r'''
n = lily.PitchedRest('c', lily.Octave(1), lily.Duration(Fraction(1, 4)), lily.RestModifier())
n.oct_check = 1
assert [type(c).__name__ for c in n] == ['Octave', 'OctCheck', 'Duration', 'RestModifier'], text(n)
''', needs='an octave check set on a pitched rest that has a duration', breaks='the octave check is written after the duration'),
'R02-check0': dict(property='R02', edits=[('quickly/dom/lily.py', '''        if num is not None:
            self.add(OctCheck(num))''', '''        if num:
            self.add(OctCheck(num))''')], demo=PRE + r'''
n = lily.Note('c')
n.oct_check = 0
assert len(n) == 1 and n.oct_check == 0, text(n)
''', needs='octave check 0 (a single =) set on a note without a check', breaks='the check is not added'),
'R02-acc': dict(property='R02', edits=[('quickly/dom/lily.py', '''    @accidental.deleter
    def accidental(self):
        self[:] = self ^ Accidental''', '''    @accidental.deleter
    def accidental(self):
        self[:] = self ^ (Accidental, OctCheck)''')], demo=PRE + r'''
n = lily.Note('c', lily.Accidental('forced'), lily.OctCheck(1))
del n.accidental
assert n.oct_check == 1, text(n)
''', needs='the accidental removed of a note that has an octave check', breaks='the octave check is removed too'),
'R02-add': dict(property='R02', edits=[('quickly/dom/element.py', '''                    for n in self ^ skip:
                        i = self.index(n)
                        self.insert(i, node)
                        return''', '''                    for i in range(len(self)):
                        if not isinstance(self[i], order[:index + 1]):
                            self.insert(i, node)
                            return''')], demo=PRE + r'''
n = lily.Note('c', lily.Octave(1), lily.Articulations())
n.add(lily.Octave(2))
n.add(lily.Duration(Fraction(1, 4)))
n.octave = 0
n = lily.Note('c', lily.Articulations(lily.Slur("start")))
a, b = lily.Articulations(), n[0]
n.insert(0, lily.Octave(1))
n.duration = Fraction(1, 2)
n.add(a)
assert [type(c).__name__ for c in n] == ['Octave', 'Duration', 'Articulations', 'Articulations'], text(n)
assert n[2] is a, 'the articulations end up in the wrong place'
''', needs='a part added when one of the same type is there', breaks='it comes after the existing part'),
'R02-scaling': dict(property='R02', edits=[('quickly/dom/lily.py', '''                if value in (1, None):
                    d.remove(s)''', '''                if value is None:
                    d.remove(s)''')], demo=PRE + r'''
n = lily.Note('c')
n.duration_scaling = Fraction(1, 4), Fraction(2, 3)
n.duration_scaling = Fraction(1, 8), 1
assert len(n[0]) == 0, text(n)
''', needs='scaling 1 set on an element with another scaling', breaks='the scaling stays as *1'),
}
del SEEDS['R02-add']
