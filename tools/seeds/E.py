LY = """
from quickly.dom import lily
from quickly.lang.lilypond import LilyPond
from parce.transform import transform_text
"""
SEEDS = {
'T04-upto-descend': dict(property='T04', edits=[('quickly/node.py',
"""        node = self
        while node.parent and node is not upto:
            for n in node.left_siblings():
                if (yield n) is not False and len(n):
""","""        node = self
        while node.parent and node is not upto:
            for n in node.left_siblings():
                if (yield n) is not False and len(n) or node is not self and len(n) > 1:
""")], demo="""
from quickly.node import Node
root = Node(Node(Node(), Node()), Node(Node()))
leaf = root[1][0]
it = leaf.backward()
assert next(it) is root[0]
try:
    n = it.send(False)
except StopIteration:
    pass
else:
    raise AssertionError(n)
""", needs='a backward search from below the top level that skips a preceding sibling of an ancestor with more than one child',
   breaks='the skip request is not honoured there'),
'T05-empty-child': dict(property='T05', edits=[('quickly/dom/element.py',
"""        pos = context.pos if start is None else start
        end = context.end if end is None else end
        tokens = context.tokens()
        insert_after = ''
        for point in self.points():
""","""        pos = context.pos if start is None else start
        end = context.end if end is None else end
        tokens = context.tokens()
        insert_after = ''
        for n in reversed(self):
            if not n.head_point() and not len(n):
                self.remove(n)
        for point in self.points():
""")], demo=LY+"""
import parce
doc = parce.Document(LilyPond.root, "{ c d }", transformer=True)
d = doc.get_transform(True)
d.append(lily.Document())
len(list(d.edits(doc.get_root(True))))
assert len(d) == 2, 'listing the edits removed a node'
""", needs='listing the edits of a document that has a new child element without any text', breaks='the child is removed by listing the edits'),
'E01-empty-block': dict(property='E01', edits=[('quickly/dom/element.py',
"""self.space_after_head if len(self) or self.write_tail() else self.space_after""",
"""self.space_after_head if len(self) else self.space_after""")], demo=LY+"""
m = lily.MusicList()
m.space_after_head = '  '
m.space_after = '\\n'
assert m.head_point().space_after == '  ', m.head_point()
""", needs='a block element without children with deviating spacing', breaks='the space behind the head of an empty block is the one that belongs behind the whole block'),
'E02-space-behind': dict(property='E02', edits=[('quickly/dom/element.py',
"""                        if space and del_end < pos:
                            del_end = pos   # unparsed space can be ditched
""","""                        if space and pos - del_end < 2:
                            del_end += 1   # unparsed space can be ditched
""")], demo=LY+"""
import parce
doc = parce.Document(LilyPond.root, "{ c4d }", transformer=True)
d = doc.get_transform(True)
n = next(d // lily.Duration)
n.parent.remove(n)
d.edit(doc)
assert doc.text() == "{ c d }", doc.text()
""", needs='removing an element that is directly followed by one that wants space before it', breaks='the first character of the surviving text behind a deleted piece is deleted too'),
'E03-stale-count': dict(property='E03', edits=[('quickly/dom/edit.py',
"""        self._document = cursor.document()
        self._changes = 0
""","""        self._document = cursor.document()
        if not self.readonly:
            self._changes = 0
""")], demo=LY+"""
import parce
from quickly.transpose import Transpose, Transposer
from quickly.pitch import Pitch
doc = parce.Document(LilyPond.root, "{ c d }", transformer=True)
t = Transpose(Transposer(Pitch(0, 0, 0), Pitch(0, 1, 0)))
t.edit(doc)
assert t.changes() == 2, t.changes()
t.readonly = True
t.edit(doc)
assert t.changes() == 0, t.changes()
""", needs='an Edit that is used again in read-only mode after a writing edit', breaks='changes() reports the changes of the earlier edit'),
}
