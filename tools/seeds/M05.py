PRE = '''
import parce, quickly
from quickly.pitch import Pitch, PitchProcessor
from quickly.transpose import Transposer, Transpose
from quickly.relative import Rel2abs
def run(edit, text, part=None):
    d = parce.Document(quickly.find('lilypond'), text, transformer=True)
    x = d if part is None else parce.Cursor(d, text.index(part), text.index(part) + len(part))
    edit.edit(x)
    return d.text()
second = Transposer(Pitch(0, 0, 0), Pitch(0, 1, 0))
'''
SEEDS = {
'M05-nearest': dict(property='M05', edits=[('quickly/pitch.py', "            if lang in pitch_names:\n                self.language = lang\n                break\n", "            if lang in pitch_names:\n                self.language = lang\n")], demo=PRE + r'''
text = '\\language "deutsch"\n{ fis }\n\\language "english"\n{ fs a }\n{ gs e }\n'
got = run(Transpose(second), text, 'fs a')
assert got == text.replace('fs a', 'gs b'), got
''', needs='two different language commands before a selection', breaks='the first language command of the document is used instead of the nearest'),
'M05-include': dict(property='M05', edits=[('quickly/dom/lily.py', 'language = filename[:-3]', 'language = filename.rstrip(".ly")')], demo=PRE + r'''
got = run(Transpose(second), '\\include "espanol.ly"\n{ dos fab }\n')
assert got == '\\include "espanol.ly"\n{ res solb }\n', got
got = run(Transpose(second), '\\include "italiano.ly"\n{ dod }\n')
assert got == '\\include "italiano.ly"\n{ red }\n', got
''', needs='an include of a language file of which the name ends with one of the characters of the extension', breaks='the language file is not recognized'),
'M05-processor': dict(property='M05', edits=[('quickly/transpose.py', "        if not node.is_root():\n            processor.find_language(node)", "        if not self.processor and not node.is_root():\n            processor.find_language(node)")], demo=PRE + r'''
t = Transpose(second, PitchProcessor())
text = '\\language "english"\n{ fs a }\n{ gs e }\n'
got = run(t, text, "gs e")
assert got == text.replace('gs e', 'as fs'), got
''', needs='a Transpose with a given processor, on a part of a document with a language command before it', breaks='the language in force is not looked for'),
}
