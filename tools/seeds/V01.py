PRE = r'''
from fractions import Fraction as F
import parce, quickly
from quickly.dom import lily, read
from quickly.time import Time
'''
TI, LI, DU = 'quickly/time.py', 'quickly/dom/lily.py', 'quickly/duration.py'
SEEDS = {
'V01-stale-cache': dict(property='V01', edits=[(LI, '''                if dur:
                    durables = new
                    duration = dur
                    return dur
''', '''                if dur:
                    durables.update(new)
                    duration = dur
                    return dur
''')], demo=PRE + r'''
music = read.lily(r"{ c2 d e8 f }")
t = Time()
assert t.length(music[1]) == F(1, 2)
assert t.length(music[3]) == F(1, 8)
assert t.length(music[1]) == F(1, 2), t.length(music[1])
''', needs='asking for notes without duration at different places, and then the first one again', breaks='a note gets the duration of another part of the music'),
'V01-last-common': dict(property='V01', edits=[(TI, '''                break
            context = context.enter(node)
            node = node[pos]
        else:
            index += 1

''', '''                break
            context = context.enter(node)
            node = node[pos]

''')], demo=PRE + r'''
music = read.lily(r"{ c4 d4 \tuplet 3/2 { e4 f4 g4 } }")
t = Time()
tup = music[2]
assert t.duration(music[0], music[1]).time == F(1, 2)
assert t.duration(music[1], music[1]).time == F(1, 4), t.duration(music[1], music[1])
assert t.duration(tup[1][2], tup[1][2]).time == F(1, 6)
assert t.duration(music[1], tup[1][1]).time == F(1, 4) + F(1, 3)
assert t.duration(tup, tup[1][1]).time == F(1, 3), t.duration(tup, tup[1][1])
''', needs='a duration between a node and itself or one of its descendants', breaks='an earlier part is counted twice or a scaling is applied twice'),
'V01-remote-scope': dict(property='V01', edits=[(TI, '''            return node.time_length(self.enter(node, time), None)
''', '''            return node.time_length(self.enter(node), None)
''')], demo=PRE + r'''
import os, tempfile
from quickly.dom.scope import Scope
with tempfile.TemporaryDirectory() as d:
    os.mkdir(os.path.join(d, 'lib'))
    def w(name, text):
        with open(os.path.join(d, name), 'w') as f:
            f.write(text)
        return os.path.join(d, name)
    w('lib/part.ily', 'mx = { c2 }\n')
    w('lib/inc.ily', '\\include "part.ily"\nmy = { \\mx d2 }\n')
    url = w('main.ly', '\\include "lib/inc.ily"\n{ \\my }\n')
    doc = parce.Document(quickly.find('lilypond'), open(url).read(), url=url, transformer=True)
    dom = doc.get_transform(True)
    got = Time(Scope(doc), wait=True).length(dom[-1])
    assert got == F(1), got
''', needs='a variable in an included file that refers to a variable included by that file, from its own folder', breaks='names are looked up in the wrong file'),
'V01-shift-only-first': dict(property='V01', edits=[(DU, '''        dotcount = self.dotcount + other.dotcount
''', '''        dotcount = self.dotcount or other.dotcount
''')], demo=PRE + r'''
music = read.lily(r"\shiftDurations #1 #1 { \shiftDurations #0 #1 { c4 } }")
assert Time().length(music) == F(7, 32), Time().length(music)
''', needs='two nested commands that both add dots', breaks='only one of the nested transformations adds its dots'),
'V01-empty-chord': dict(property='V01', edits=[(LI, '''            if any(body / Note):
                return super().time_length(context, end)
        return 0
''', '''            if len(body):
                return super().time_length(context, end)
        return 0
''')], demo=PRE + r'''
music = read.lily("{ c4 <>4 d4 < %{ x %} >4 e }")
assert [Time().length(n) for n in music] == [F(1, 4), 0, F(1, 4), 0, F(1, 4)], [Time().length(n) for n in music]
''', needs='a chord with a comment or something else than notes', breaks='a chord without notes takes time'),
}
