SEEDS = {
'M01-name-octave': dict(property='M01', edits=[
('quickly/pitch.py', '''        self.octave -= prev_pitch.octave - (self.note - prev_pitch.note + 3) // l - default_octave''',
'''        self.octave -= prev_pitch.octave - (self.note - prev_pitch.note + 3) // l + min(default_octave, 1) ** 2''')], demo='''
from quickly.pitch import Pitch
for name_octave in (-1, 0, 1):
    prev = Pitch(0, 3, 0)
    p = Pitch(2, 5, 0)
    p.make_relative(prev, name_octave)
    p.make_absolute(prev, name_octave)
    assert p.octave == 2, (name_octave, p.octave)
''', needs='a language with note names outside the small octave', breaks='the octave of the name is taken as -1 or 1 one way'),
'M02-sub-order': dict(property='M02', edits=[('quickly/transpose.py',
'''        doct, t.steps = divmod(self.steps - other.steps, 7)
        t.octave = self.octave - other.octave + doct
        t.alter = self.alter - other.alter - doct * 6''',
'''        t.steps = abs(self.steps - other.steps) % 7
        doct = (self.steps - other.steps - t.steps) // 7
        t.octave = self.octave - other.octave + doct
        t.alter = self.alter - other.alter - doct * 6''')], demo='''
from quickly.transpose import Transposer
from quickly.pitch import Pitch
a = Transposer(Pitch(0, 0, 0), Pitch(0, 2, 0))
b = Transposer(Pitch(0, 0, 0), Pitch(0, 4, 0))
down = a - b
p = Pitch(0, 4, 0)
down.transpose(p)
assert p == Pitch(0, 2, 0), (p.octave, p.note, p.alter)
''', needs='a difference of transposers that goes down', breaks='the number of steps of the difference is wrong'),
'M02-respell-octave': dict(property='M02', edits=[('quickly/transpose.py',
"""            pitch.alter += doct * -6 + self.scale[pitch.note] - self.scale[note]
            pitch.octave += doct""", """            pitch.alter += self.scale[pitch.note] - self.scale[note]
            if doct:
                pitch.alter += 5""")], demo="""
from quickly.transpose import Transposer
from quickly.pitch import Pitch
t = Transposer(Pitch(0, 0, 0), Pitch(0, 0, -.5))
p = Pitch(0, 0, -1)
m = p.to_midi()
t.transpose(p)
assert p.to_midi() == m - 1, (p.octave, p.note, p.alter)
""", needs='lowering a ceses below a double flat', breaks='the pitch stays in the same octave when it is respelled as a b'),
'M06-note-only': dict(property='M06', edits=[('quickly/pitch.py',
"""        if (p.note, p.alter) == (pitch.note, pitch.alter):""", """        if p.note == pitch.note and int(p.alter * 2) == int(pitch.alter * 2):""")], demo="""
from quickly.pitch import Pitch, PitchProcessor
from quickly.dom import lily
n = lily.Note('c')
p = PitchProcessor()
with p.process(n) as q:
    q.alter = .25
assert n.head == 'cih', n.head
""", needs='changing only a quarter tone', breaks='the name is kept though the alteration differs'),
'M06-suomi': dict(property='M06', edits=[('quickly/pitch.py',
'''        names = octave_dict[octave]
            octave = pitch.octave - octave
''','''        names = octave_dict[octave]
            octave = pitch.octave - min(octave_dict)
''')], demo='''
from quickly.pitch import Pitch, PitchProcessor
p = PitchProcessor('bagpipe')
for octave in range(-1, 3):
    q = Pitch(octave, 4, 0)
    name, oct = p.name_octave(q)
    r = p.pitch(name)
    r.octave += oct
    assert r == q, (name, oct, q)
''', needs='a language that names the octaves of a step differently', breaks='the octave count of the lowest name is given with the nearest name'),
}
