PRE = r'''
from quickly.node import Node, Range
def build(shape):
    n = Node()
    for s in shape:
        n.append(build(s))
    return n
'''
N = 'quickly/node.py'
SEEDS = {
'Q01-start-chain': dict(property='Q01', edits=[(N, '''            start_trail = self.start_trail if self.start_trail and index == self.start \\
                and len(self.start_trail) > depth else None
''', '''            start_trail = self.start_trail if self.start_trail and index == self.start_trail[-1] \\
                and len(self.start_trail) > depth else None
''')], demo=PRE + r'''
t = build((((), ()), ((), (), ())))
r = t[0][1].range(t[1][1])
assert list(r.descendants()) == [t[0], t[0][1], t[1], t[1][0], t[1][1]], list(r.descendants())
u = build((((), ()), ((), ((), ()), ())))
r = u[1][1][0].range(u[1][2], True)
assert list(r.nodes()) == [u[1][1][0], u[1][1][1], u[1][2]]
assert list(r.descendants()) == [u[1], u[1][1], u[1][1][0], u[1][1][1], u[1][2]], list(r.descendants())
''', needs='a range of which the indices on the way to the start node differ', breaks='nodes before the start node are visited'),
'Q01-end-complete': dict(property='Q01', edits=[(N, '''                if i < len(n) - 1:
                    return False    # this descendant is sliced from the end
''', '''                if i < len(n) - 1:
                    return n is not self.node    # this descendant is sliced from the end
''')], demo=PRE + r'''
t = build((((), ((), ())), ()))
r = Range.from_nodes(None, t[0][1][0], True)
assert r.goto(t[0]) and not r.in_range()
''', needs='an end boundary that cuts two or more levels below the asked node, where the upper one is the last', breaks='a node that is cut by the end of the range is reported as completely inside'),
'Q01-insert-before': dict(property='Q01', edits=[(N, '''                        level.end += added - removed
                        if adjust_end:
                            level.end_trail[level.depth] = level.end
''', '''                        level.end += added - removed
                        if adjust_end and removed:
                            level.end_trail[level.depth] = level.end
''')], demo=PRE + r'''
t = build(((), (), ()))
r = Range.from_nodes(None, t[1], True)
end = t[1]
new = Node()
r[0:0] = [new]
assert list(r) == [new, t[1], end]
r.reset()
assert list(r.nodes()) == [new, t[1], end], list(r.nodes())
assert list(r.copy().nodes()) == [new, t[1], end], list(r.copy().nodes())
''', needs='inserting (not replacing) before the end node, and then using another copy of the range', breaks='the last nodes fall out of the range'),
'Q01-backward-skips': dict(property='Q01', edits=[(N, '''            index = self.end if self.index == -1 else self.index - 1
            while index >= self.start:
''', '''            index = self.end if self.index == -1 else self.index - 1
            while index >= self.start and (index or not self.start_trail):
''')], demo=PRE + r'''
t = build((((), ()), ()))
r = t[0][0].range(t[1], True)
assert list(r.descendants(True)) == [t[1], t[0], t[0][1], t[0][0]], list(r.descendants(True))
''', needs='walking backward in a range with a start boundary, of which the start node is a first child', breaks='the walk ends before the start node'),
'Q01-from-here': dict(property='Q01', edits=[(N, '''        end_trail = level.end_trail[level.depth:] if level.end_trail is not None else None
''', '''        end_trail = (level.end_trail[level.depth:] or None) if level.end_trail is not None else None
''')], demo=PRE + r'''
t = build(((), ((), ())))
r = t[0].range(t[1])
assert r.goto(t[1])
assert list(r.descendants()) == []
r.goto(t[1])
assert list(r.from_here().nodes()) == [], list(r.from_here().nodes())
r = t[0].range(t[1])
assert len(r.extract_tree()[1]) == 0
''', needs='a new range made at the end node, when that has children', breaks='nodes after the end node are in the new range'),
'Q01-common-ancestor': dict(property='Q01', edits=[(N, '''                return n, trail_self[i::-1], trail_other[::-1]
''', '''                return n, trail_self[i::-1], trail_other[i::-1]
''')], demo=PRE + r'''
t = build((((), ()), (((), ()),)))
r = t[0].range(t[1][0][0])
assert list(r.nodes())[-1] is t[1][0][0], r.end_trail
r = t[0][1].range(t[1][0][1])
assert list(r.nodes())[-1] is t[1][0][1], r.end_trail
''', needs='an end node that is deeper than the start node', breaks='the range does not end at the end node'),
}
