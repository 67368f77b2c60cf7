PRE = '''
import parce, quickly
from quickly.pitch import Pitch
from quickly.transpose import Transposer, transpose
from quickly.relative import abs2rel, rel2abs
def run(f, text, *args):
    d = parce.Document(quickly.find('lilypond'), text, transformer=True)
    f(d, *args)
    return d.text()
octave = Transposer(Pitch(0, 0, 0), Pitch(1, 0, 0))
'''
SEEDS = {
'M04-octavecheck': dict(property='M04', edits=[('quickly/transpose.py', "                            self.transposer.transpose(p)\n                            last_pitch.transposed = p\n                            processor.write_node(note, p)", "                            self.transposer.transpose(p)\n                            processor.write_node(note, p)")], demo=PRE + r'''
text = run(transpose, r"\relative c' { c d \octaveCheck d' e }", octave)
assert text == r"\relative c'' { c d \octaveCheck d'' e }", text
''', needs='transposing relative music with an \\octaveCheck by an octave', breaks='the note after an octave check is not relative to the transposed octave check'),
'M04-equals': dict(property='M04', edits=[('quickly/transpose.py', "                if note.oct_check is not None:", "                if note.oct_check:")], demo=PRE + r'''
text = run(transpose, r"\relative c { c d= e=, }", octave)
assert "d='" in text, text
''', needs='an octave check without marks (=) on a note in relative music', breaks='the check for octave zero is not transposed with the note'),
'M04-tuning': dict(property='M04', edits=[('quickly/relative.py', "                    lily.Transpose, lily.Transposition, lily.StringTuning,\n                )):", "                    lily.Transpose, lily.Transposition,\n                )):")], demo=PRE + r'''
text = run(abs2rel, r"{ c' \stringTuning <c' g' d'' a''> d' }")
assert r"\stringTuning <c' g' d'' a''>" in text, text
''', needs='a \\stringTuning in music that is made relative', breaks='the absolute pitches of a string tuning are made relative'),
}
