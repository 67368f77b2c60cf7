PRE = r'''
import parce, quickly
from quickly.dom import lily
from quickly.dom.scope import Scope
def setup(files, main, root='/x/'):
    docs = {}
    loads = []
    def factory(filename):
        loads.append(filename)
        if filename not in docs:
            raise FileNotFoundError(filename)
        return docs[filename]
    for name, text in files.items():
        docs[root + name] = parce.Document(quickly.find('lilypond'), text, url=root + name, transformer=True)
    return Scope(docs[root + main], factory=factory), docs, loads
def refs(doc):
    return list(doc.get_transform(True) // lily.IdentifierRef)
'''
SEEDS = {
'S01-nested-scope': dict(property='S01', edits=[('quickly/dom/lily.py', "new_scope = scope.include_scope(n.filename, n)", "new_scope = self.scope.include_scope(n.filename, n)")], demo=PRE + r'''
s, docs, loads = setup({'a.ly': '\\include "sub/b.ly"\n{ \\music }\n', 'sub/b.ly': '\\include "c.ly"\n', 'sub/c.ly': 'music = { c }\n'}, 'a.ly')
r = refs(docs['/x/a.ly'])[0].get_value_with_scope(s)
assert r and r[1].document() is docs['/x/sub/c.ly'], r
''', needs='a file in a sub directory that includes a file in the same directory', breaks='nested includes are resolved relative to the first document only'),
'S01-continue': dict(property='S01', edits=[('quickly/dom/lily.py', '''                    lookup = type(self)(scope.node, scope.parent, self.wait)
                    scope = scope.parent''', '''                    node = scope.node
                    scope = scope.root()
                    lookup = type(self)(node, scope, self.wait)''')], demo=PRE + r'''
s, docs, loads = setup({'a.ly': 'music = { c }\n\\include "b.ly"\n', 'b.ly': 'music = { d }\n\\include "c.ly"\n', 'c.ly': '{ \\music }\n'}, 'a.ly')
inc = lambda n: next(docs[n].get_transform(True) / lily.Include)
s2 = s.include_scope('b.ly', inc('/x/a.ly'))
s3 = s2.include_scope('c.ly', inc('/x/b.ly'))
r = refs(docs['/x/c.ly'])[0].get_value_with_scope(s3)
assert r[1].document() is docs['/x/b.ly'], r
''', needs='a reference in a document that is included by an included document', breaks='the value is found with the wrong scope'),
'S01-order': dict(property='S01', edits=[('quickly/dom/scope.py', '''        if self.relative_include:
            add(self.document().url)
        add(self.root().document().url)
''', '''        add(self.root().document().url)
        if self.relative_include:
            add(self.document().url)
''')], demo=PRE + r'''
s, docs, loads = setup({'a.ly': '', 'x.ly': '', 'sub/b.ly': '', 'sub/x.ly': ''}, 'a.ly')
s2 = s.include_scope('sub/b.ly')
s3 = s2.include_scope('x.ly')
assert s3.document().url == '/x/sub/x.ly', s3
''', needs='a file with the same name in the directory of the including and of the first document', breaks='the wrong file is included'),
'S01-relative': dict(property='S01', edits=[('quickly/dom/scope.py', "self.relative_include = parent.relative_include if parent else True", "self.relative_include = not parent or parent.parent is None or parent.relative_include")], demo=PRE + r'''
s, docs, loads = setup({'a.ly': '', 'sub/b.ly': '', 'sub/x.ly': ''}, 'a.ly')
s.relative_include = False
s2 = s.include_scope('sub/b.ly')
assert s2.include_scope('x.ly') is None
''', needs='relative_include switched off on the root scope', breaks='included documents search relative to themselves all the same'),
'S01-factory': dict(property='S01', edits=[('quickly/dom/scope.py', "return type(self)(doc, self, self.factory, node)", "return type(self)(doc, self, parent and self.factory, node)".replace('parent and ', 'self.parent and '))], demo=PRE + r'''
s, docs, loads = setup({'a.ly': '', 'b.ly': '', 'c.ly': ''}, 'a.ly')
s2 = s.include_scope('b.ly')
s3 = s2.include_scope('c.ly')
assert s3 and s3.document() is docs['/x/c.ly'], s3
''', needs='two levels of includes with a loading factory', breaks='the factory is not used for files included by included files'),
}
