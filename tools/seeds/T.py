SEEDS = {
'T01-extend-from': dict(property='T01', edits=[('quickly/node.py',
"""        list.extend(self, nodes)
        for node in self[index:]:
""","""        list.extend(self, nodes)
        for node in self[index or 1:]:
""")], demo="""
from quickly.node import Node
a = Node()
b = Node()
a.extend(iter([b, Node()]))
assert b.parent is a, b.parent
assert a[1].parent is a
""", needs='extending a node that has no children yet', breaks='the first node added by extend() to an empty node keeps its old parent'),
'T02-tail-lost': dict(property='T02', edits=[('quickly/dom/element.py',
"""            self.head_origin = other.head_origin
            modified_flag = HEAD_MODIFIED
            self.tail_origin = other.tail_origin
""","""            self.tail_origin = other.tail_origin
            self.head_origin = other.head_origin
            modified_flag = HEAD_MODIFIED
""")], demo="""
from quickly.dom import lily
from quickly.lang.lilypond import LilyPond
from parce.transform import transform_text
d = transform_text(LilyPond.root, "c4 d e")
c = d.copy_with_origin()
n = c // lily.Note
assert next(c // lily.Note).pos == 0, c.dump()
""", needs='an element with a head origin and no tail', breaks='position-preserving copies of notes and other text elements lose their position'),
'T03-from-here': dict(property='T03', edits=[('quickly/node.py',
"""        if level.index > -1:
            level = level.child()
""","""        if level.index > 0:
            level = level.child()
""")] if 0 else [('quickly/node.py',
"""        end_trail = level.end_trail[level.depth:] if level.end_trail is not None else None
""","""        end_trail = level.end_trail[level.depth:] or None if level.end_trail is not None else None
""")], demo="""
from quickly.node import Node, Range
root = Node(Node(Node(), Node()), Node(Node(), Node()))
r = Range(root, None, [0])
it = iter(r.descendants())
n = next(it)
assert n is root[0]
h = r.from_here()
assert h.end_trail == [], h.end_trail
""", needs='from_here() when the current node is exactly the end node of the range', breaks='a range continuing from the end node extends behind the end of the original'),
}
