SEEDS = {
'D01-truncate': dict(property='D01', edits=[('quickly/duration.py', "    dotcount = -e - (m > 0.5)", "    dotcount = -e - (m > 0.75)")], demo="""
from fractions import Fraction
from quickly.duration import log_dotcount, duration
for value in (Fraction(4, 5), Fraction(11, 8), Fraction(2, 3), Fraction(9, 10)):
    d = duration(*log_dotcount(value))
    assert d <= value, (value, d)
""", needs='a value between two durations, just above the first', breaks='the value is not truncated but rounded up'),
'D01-factors': dict(property='D01', edits=[('quickly/dom/lily.py', """        for t in scalings:
            scaling *= fractions.Fraction(t)""", """        for t in scalings[-2:]:
            scaling *= fractions.Fraction(t)""")], demo="""
from fractions import Fraction
from quickly.dom.lily import Duration
assert Duration.from_string('2*2*1/3').duration()[1] == Fraction(2, 3)
assert Duration.from_string('2*2*1/3*5').duration()[1] == Fraction(10, 3)
""", needs='a duration with three scaling factors', breaks='only the last two are multiplied'),
}
