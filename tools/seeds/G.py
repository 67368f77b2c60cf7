SEEDS = {
'G01-unbound-index': dict(property='G01', edits=[('quickly/time.py',
"""        # common part, just follow transform
        index = -1
        for index, (pos, end)""","""        # common part, just follow transform
        for index, (pos, end)""")], demo="""
from quickly.dom import read
from quickly.time import Time
m = read.lily('{ c4 d e f }')
t = Time()
assert t.duration(m[0], m[2]).time == 3 * t.length(m[0])
assert t.duration(m, m[1]).time == 2 * t.length(m[0])
""", needs='the duration is asked of a fragment of which one end is the topmost music node',
   breaks='Time.duration() raises UnboundLocalError'),
}
