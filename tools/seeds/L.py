PRE = ''
SEEDS = {
'L01-key-variable': dict(property='L01', edits=[('quickly/dom/lily.py',
'''                    if result:
                        n, scope = result
                        continue
''', '''                    n, scope = result
                    continue
''')], demo="""
from quickly.dom import read, lily
from quickly.pitch import PitchProcessor
d = read.lily_document('\\\\key c \\\\mymode')
k = next(d // lily.Key)
try:
    r = k.key_signature(PitchProcessor())
except TypeError as e:
    raise AssertionError('fails: %r' % e)
assert r is None
""", needs='a key with a mode that is a variable defined nowhere', breaks='asking for the key signature raises TypeError instead of answering None'),
'L01-cursor-nothing': dict(property='L01', edits=[('quickly/time.py',
'''            c = node and self._music_child(node)
''', '''            c = self._music_child(node)
''')], demo="""
import parce
import quickly
from quickly.time import Time
d = parce.Document(quickly.find('lilypond'), '{ c4 d }   ', transformer=True)
d.get_transform(True)
try:
    r = Time(wait=True).cursor_position(parce.Cursor(d, 11, 11))
except Exception as e:
    raise AssertionError('fails: %r' % e)
assert r is None
""", needs='the time position asked for a cursor after the last element', breaks='raises TypeError'),
'L01-selection-elsewhere': dict(property='L01', edits=[('quickly/time.py',
'''                                if result and result.time >= 0:
''', '''                                if result.time >= 0:
''')], demo="""
import parce
import quickly
from quickly.time import Time
d = parce.Document(quickly.find('lilypond'), 'a = { c4 d }\\nb = { e f }\\n', transformer=True)
d.get_transform(True)
try:
    r = Time(wait=True).cursor_duration(parce.Cursor(d, 6, 22))
except Exception as e:
    raise AssertionError('fails: %r' % e)
assert r is None
""", needs='a selection that starts in one music expression and ends in another', breaks='raises AttributeError'),
'L01-remote-wait': dict(property='L01', edits=[('quickly/time.py',
'''            time = type(self.time)(scope, self.time.wait)
''', '''            time = type(self.time)(scope)
''')], demo="""
import parce
import quickly
from quickly.dom import read, lily
from quickly.dom.scope import Scope
from quickly.time import Time
import quickly.dom.lily as L
asked = []
orig = L.Reference.get_value_with_scope
def spy(self, scope=None, wait=True):
    asked.append(wait)
    return orig(self, scope, wait)
L.Reference.get_value_with_scope = spy
d = read.lily_document('mx = { c4 d }\\nmy = { \\\\mx e }\\nmz = { \\\\my }\\n')
n = list(d // lily.MusicList)[-1]
Time(wait=True).length(n)
assert asked and all(asked), asked
""", needs='a variable that refers to another variable', breaks='the request to wait for included documents is forgotten below the first variable'),
'L01-include-parent-wait': dict(property='L01', edits=[('quickly/dom/lily.py',
'''lookup = type(self)(scope.node, scope.parent, self.wait)''', '''lookup = type(self)(scope.node, scope.parent)''')], demo="""
import quickly.dom.lily as L
from quickly.dom import lily, read
from quickly.dom.scope import Scope
import parce
import quickly
made = []
orig = L.Lookup.__init__
def spy(self, node, scope=None, wait=True):
    made.append(wait)
    orig(self, node, scope, wait)
L.Lookup.__init__ = spy
docs = {
 '/a.ly': parce.Document(quickly.find('lilypond'), 'm = { c }\\n\\\\include "b.ly"\\n', url='/a.ly', transformer=True),
 '/b.ly': parce.Document(quickly.find('lilypond'), '{ \\\\m }\\n', url='/b.ly', transformer=True),
}
for x in docs.values():
    x.get_transform(True)
def factory(fn):
    try:
        return docs[fn]
    except KeyError:
        raise FileNotFoundError(fn)
s = Scope(docs['/a.ly'], factory=factory)
inc = next(docs['/a.ly'].get_transform(True) // lily.Include)
b = s.include_scope('b.ly', inc)
assert b, 'no include'
ref = next(b.document().get_transform(True) // lily.IdentifierRef)
ref.get_value(b, False)
assert len(made) > 1 and not any(made), made
""", needs='a variable used in an included file that is defined in the including file, asked without waiting', breaks='the search in the including file waits for transformations'),
'L01-rhythm-scaling-none': dict(property='L01', edits=[('quickly/rhythm.py',
'''        if s is not None and int(s) != s:
''', '''        if int(s) != s:
''')], demo="""
from quickly.dom import read, lily
from quickly import rhythm
d = read.lily_document('{ c4*2/3 d }')
try:
    rhythm.remove_fraction_scaling(d)
except TypeError as e:
    raise AssertionError('fails: %r' % e)
assert '*' not in d.write()
""", needs='notes without a duration of their own', breaks='removing fractional scalings fails at the first note without duration'),
}
