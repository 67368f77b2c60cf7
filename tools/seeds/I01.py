PRE = r'''
from quickly.dom import element
from quickly.dom.indent import Indenter
class T(element.TextElement): pass
class B(element.BlockElement):
    head, tail = '{', '}'
    space_after_head = space_before_tail = space_between = '\n'
class Q(element.BlockElement):
    """Has no tail."""
    head, tail = '[', ''
    space_after_head = space_between = '\n'
class A(element.BlockElement):
    head, tail = '<', '>'
    space_between = ' '
    def indent_align_indices(self):
        yield 0
'''
I = 'quickly/dom/indent.py'
SEEDS = {
'I01-interrupted': dict(property='I01', edits=[(I, "        self._indent_stack.clear()\n        self._indenters.clear()\n", "        self._indent_stack.clear()\n")], demo=PRE + r'''
class Bad(T):
    def write_head(self):
        raise ValueError("can't write")
i = Indenter()
try:
    i.write(B(B(Bad('x'))))
except ValueError:
    pass
n = B(T('a'))
assert i.write(n) == Indenter().write(n) == '{\n  a\n}\n', i.write(n)
''', needs='an indenter that is used again after writing a document was interrupted by an exception', breaks='levels of the interrupted document indent the next one'),
'I01-two-levels': dict(property='I01', edits=[(I, '''        if self._can_dedent and self._dedenters:
            del self._indent_stack[self._dedenters:]
            self._dedenters = 0
''', '''        if self._can_dedent and self._dedenters:
            self._indent_stack.pop()
            self._dedenters = 0
''')], demo=PRE + r'''
class C(B):
    space_before_tail = ' '
n = C(Q(B(T('a'))))
text = n.write_indented()
assert text == '{\n  [\n    {\n      a\n} }\n', text
''', needs='a line that closes a block and then one outside a level without closing text', breaks='one level too few is closed; the rest of the document stays indented'),
'I01-youngest': dict(property='I01', edits=[(I, "            self._indenters.pop()\n", "            self._indenters.pop(0)\n")], demo=PRE + r'''
class L(A):
    space_between = '\n'
n = L(A(T('a'), T('b')), T('c'))
text = n.write_indented()
assert text == '<<a b>\n c>\n', text
''', needs='nested aligning blocks of which the inner one is closed on the line where the outer begins', breaks='the outer level is closed in stead of the inner, and the next line is not aligned'),
'I01-limit': dict(property='I01', edits=[(I, "                    if align_indent <= self.max_align_indent:\n", "                    if new_indent <= self.max_align_indent:\n")], demo=PRE + r'''
class L(A):
    space_between = '\n'
def deep(n, k):
    return deep(B(n), k - 1) if k else n
n = deep(L(T('a'), T('b')), 9)
text = n.write_indented()
lines = text.splitlines()
assert lines[9] == ' ' * 18 + '<a' and lines[10] == ' ' * 19 + 'b>', text
''', needs='an aligning block that is indented deeper than max_align_indent', breaks='lines in deeply nested blocks are not aligned'),
}
