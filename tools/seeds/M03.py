SEEDS = {
'M03-fixed': dict(property='M03', edits=[('quickly/transpose.py', "                if isinstance(note, lily.Pitchable) and writable(note):", "                if isinstance(note, lily.Pitchable) and writable(node[-1]):")], demo='''
import parce, quickly
from quickly.pitch import Pitch
from quickly.transpose import Transposer, transpose
text = r"\\fixed c' { c d } e"
t = Transposer(Pitch(0, 0, 0), Pitch(0, 2, 0))
d = parce.Document(quickly.find('lilypond'), text, transformer=True)
c = parce.Cursor(d, text.index('{'), len(text))
transpose(c, t)
assert d.text().startswith(r"\\fixed c' {"), d.text()
''', needs='a selection of the music of a fixed expression without its reference pitch', breaks='the reference pitch outside of the selection is transposed'),
'M03-durables': dict(property='M03', edits=[('quickly/rhythm.py', "                if isinstance(n, lily.Skip) and not any(n / lily.Duration):", "                if isinstance(n, lily.Skip) and not isinstance(n[0], lily.Duration):"),
 ('quickly/rhythm.py', "            if isinstance(n, lily.Durable):\n                # skip", "            if isinstance(n, lily.Durable) and not any(n / lily.Octave):\n                # skip")], demo='''
from quickly.dom import read
from quickly import rhythm
m = read.lily_document("{ c'4 d8 }")
rhythm.remove(m)
assert m.write() == "{ c' d }", m.write()
''', needs='a note with an octave mark', breaks='notes with an octave mark are skipped by all rhythm operations'),
}
