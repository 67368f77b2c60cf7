import json
P=[]
def p(id,title,statement,over,text,why,files,mech,**kw):
    assert len(title)<=80,(id,len(title))
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],**kw))
    P.append(d)
N='quickly/node.py';EL='quickly/dom/element.py';ED='quickly/dom/edit.py';LI='quickly/dom/lily.py'
LL='quickly/lang/lilypond.py';LH='quickly/lang/html.py';LX='quickly/lang/latex.py';LS='quickly/lang/scheme.py'

p('T01','Every node placed in a tree points back to the node that holds it',
 'Whenever nodes are put into a tree node - at construction, by appending, extending, inserting, augmented assignment, item or slice assignment, or by replacing a node - every node so placed has exactly the holding node as its parent afterwards and sits at the requested place, also when the nodes come from a one-shot iterator. Parents, ancestors and siblings found by navigation therefore always agree with the child lists.',
 ['inputs','histories'],'every sequence of list-style operations on every node type, with every iterable and index',
 'tests use a handful of trees and operations; parent links are only observed on those, and one-shot iterables, augmented assignment and replaced nodes are not tried',
 [N],[('Node list operations','quickly/node.py:Node.__init__/append/extend/insert/__setitem__/replace_with')],
 state=[dict(name='parent link',meaning='weak reference from a node to its holder')])
p('T02','Copies are complete, independent and keep or drop their origin as asked',
 'Copying any node, shallow or deep, gives a new node of the same type with the same head value and the same individually set spacing, and copies (or leaves out) all children recursively in order, sharing no mutable state with the original. The plain copy carries no source position; the position-preserving copy carries the head and tail position and the modified state of every copied node.',
 ['inputs'],'every node type, every tree depth, every combination of spacing, origin and modification',
 'tests copy few trees and never with changed spacing or modified heads',
 [N,EL],[('copy, copy_with_origin, copy_origin_from','quickly/dom/element.py:Element, TextElement'),('copy','quickly/node.py:Node.copy'),('overrides','quickly/dom/*.py')])
p('T03','Range objects never share boundaries that move',
 'A range derived from another range, by copying it or continuing from its current node, has boundaries of its own: replacing, adding or deleting nodes through one range never moves the boundaries of the other. A copy describes the same fragment of the same tree and starts afresh at its beginning.',
 ['histories'],'every interleaving of edits and iteration through two ranges over one tree',
 'no test edits through one range while another derived one is alive',
 [N],[('Range.copy, Range.from_here, Range.__setitem__','quickly/node.py:Range')],
 state=[dict(name='start and end trails',meaning='mutable index lists adjusted when nodes are replaced')])
p('T04','Tree walks honour skip requests and direction',
 'Every walk over descendants or following or preceding nodes, on trees and on ranges alike, yields each node before its descendants and leaves out exactly the descendants of a node when the consumer sends False for it. A walk in backward direction takes children last to first at every level, one in forward direction first to last, and a filtering search yields a matching node without looking below it.',
 ['inputs','histories'],'every tree, every start node, every pattern of skip requests',
 'tests sample two or three trees, and skip requests only through one helper',
 [N],[('descendants, forward, backward, nodes, filter_descendants','quickly/node.py:Node, Range, Common')])
p('T05','Looking never changes the document',
 'Querying, navigating, comparing, printing, writing to text, listing the pending edits, computing indentation, lengths, times, keys and scopes leave every node of the document as it was: its children, parent, head, spacing, origin and modified state. Operations that promise a new value (a pitch, duration, copy or transposed key) never alter their arguments unless that is their documented purpose.',
 ['inputs','histories'],'every document and every sequence of read-only calls on it',
 'tests never compare the whole tree before and after a read; a stray write shows only in the next operation',
 [N,EL,LI,'quickly/time.py','quickly/key.py','quickly/duration.py','quickly/dom/scope.py','quickly/dom/indent.py'],
 [('read-only API','quickly/node.py, quickly/dom/element.py, quickly/time.py, quickly/key.py, quickly/numbering.py')])
p('E01','Changed heads and tails are tracked, and reported with their own text',
 'Giving a head or tail a different value marks exactly that part as modified and setting an equal value marks nothing; the mark, the source position and the spacing reported for the head text come from the head, those for the tail text from the tail. Newly made elements and copies without origin report no position.',
 ['inputs','histories'],'every element type and every sequence of head/tail assignments and copies',
 'tests change a few note heads; tails, blocks without tail and copies are not looked at',
 [EL],[('head/tail properties, head_point, tail_point','quickly/dom/element.py:Element, HeadElement, BlockElement')],
 state=[dict(name='modified flags',meaning='bits for head and tail')])
p('E02','Write-back touches only what was changed',
 'The list of edits for a document rewrites existing text of an element exactly when that element was modified, using its own position and text, and inserts text for elements without position at the place reached so far; unmodified elements are never rewritten. Parts are visited head, children in order, tail, and text is deleted only between surviving parts and up to the end of the requested range.',
 ['inputs','histories'],'every document, every set of modifications, every requested range',
 'tests apply three edits to one small document',
 [EL],[('edits, points','quickly/dom/element.py:Element')])
p('E03','Editing a document is one transaction that lets go of the document',
 'An edit on a text document or selection reads the current transform of that document, performs the operation exactly once, writes back all changes in a single transaction limited to the selection unless it is read-only, reports how many changes that edit made, and no longer refers to the document when the call ends, also when the operation fails. Editing a node or range never writes to a document, and every edit returns the result of the operation.',
 ['inputs','fault_sequences','histories'],'every edit operation, every selection, every exception raised by an operation, repeated use of one edit object',
 'tests never let an operation fail, never use the read-only mode and never reuse an edit object',
 [ED,EL],[('Edit.edit_cursor/edit_document/edit_node/edit_range','quickly/dom/edit.py:Edit'),('Element.edit','quickly/dom/element.py')])
p('X01','Elements made from source text know where they came from',
 'In each supported language, every element with text of its own that the parser creates from source tokens remembers those tokens, head and tail, so it can be written back in place; the read-a-fragment variant of the same parser remembers none, so the fragment can be inserted elsewhere. Both variants otherwise build the same elements.',
 ['inputs','programs'],'every construct of every supported input language, in both parser variants',
 'tests parse a few snippets; an element that lost its tokens is only noticed when exactly that element is edited',
 [LL,LH,LX,LS,'quickly/dom/base.py','quickly/dom/read.py'],[('Transform.factory / AdHocTransform.factory','quickly/dom/base.py'),('transform classes','quickly/lang/*.py')])
p('X02','Delimited constructs lose and duplicate no token',
 'When source text with an opening and (possibly missing) closing delimiter becomes an element, the delimiter tokens become its head and tail and every token in between becomes part of its contents, each exactly once. A missing closing delimiter gives an element without tail origin instead of a content token taken for the closing one.',
 ['inputs'],'every bracketed construct of every language, complete or unfinished',
 'tests parse complete and tidy input only',
 [LL,LH,LX,LS,'quickly/dom/base.py'],[('transform handlers that pop the closing item','quickly/lang/*.py'),('create_block','quickly/lang/lilypond.py')])
p('X03','Every lexical context and music event has a handler',
 'Every context the language definitions can produce, including the inherited ones, is either converted by the transformation of that language or explicitly dropped, and every kind of event those contexts pass to the music builder is handled there. No part of a source text silently falls through because nobody feels responsible.',
 ['programs','inputs'],'every lexicon reachable from the root of every supported language',
 'each missing handler needs its own input; the tests contain a small part of the languages',
 [LL,LH,LX,LS],[('transform methods named after lexicons','quickly/lang/*.py'),('MusicBuilder dispatchers','quickly/lang/lilypond.py')])
p('X04','Incomplete input never crashes the transformation',
 'Transforming unfinished source text, such as text still being typed with closing delimiters, names or values missing, always yields a document and never fails. Handlers do not rely on parts that the text need not contain.',
 ['inputs'],'every prefix of every source text, in every language',
 'tests contain complete constructs only',
 [LL,LH,LX,LS,'quickly/dom/util.py'],[('transform handlers','quickly/lang/*.py')])
p('X05','Incremental updates give the same tree as transforming from scratch',
 'Transforming the unchanged parts of a text again, as happens after every edit, gives the same elements as the first time: building an enclosing element never alters, consumes or re-parents in a lasting way a result that was kept for reuse. The document tree after any history of edits equals the tree of the final text.',
 ['histories','inputs'],'every document and every history of text edits',
 'tests transform each text once',
 [LL,LH,LX,LS,'quickly/dom/util.py'],[('transform handlers','quickly/lang/*.py'),('build_tree','quickly/dom/element.py')])
p('X06','What is read from tokens is what is written back',
 'For every element type with its own reading and writing of the head, the affixes, escapes and unit texts that writing adds are exactly those that reading strips or interprets. Fixed-choice elements know one text for each value and one value for each text.',
 ['inputs','programs'],'every element class and every head value',
 'each class needs its own values; tests write a dozen of the several hundred classes',
 [EL,LI,'quickly/dom/htm.py','quickly/dom/scm.py','quickly/dom/tex.py'],[('read_head/write_head pairs, mapping tables','quickly/dom/*.py')])
p('X07','Every command text leads to exactly one element type',
 'Within each table that chooses an element type by its source text no two types claim the same text, the chosen type writes that same text, and no text is claimed by two tables that are consulted one after the other. Every concrete element type that has a fixed command text is reachable from reading that text, unless the lexer does not know the command.',
 ['programs'],'every element class with a fixed head or fixed set of heads',
 'tests read a few commands',
 [LI,LL],[('head_mapping tables','quickly/lang/lilypond.py'),('class head/mapping attributes','quickly/dom/lily.py')])
p('M01','Relative and absolute pitch conversions undo each other',
 'For any two pitches, making one relative to the other and then absolute again (or the other way round) restores its octave and changes nothing else, for every octave distance and direction. The step and alteration never change, and a name without octave marks means the pitch at most three steps away from the previous one.',
 ['inputs'],'every pair of pitches with any step, alteration and octave',
 'tests convert a few melodies',
 ['quickly/pitch.py'],[('Pitch.make_absolute, make_relative','quickly/pitch.py:Pitch')])
p('M02','Transposing keeps the interval',
 'Transposing moves every pitch by the same number of steps and the same sounding distance, whatever its octave, direction or alteration; only where the alteration would exceed a double one another step with the same sound is taken. Adding transposers performs one after the other, subtracting undoes; a transposer made from two pitches carries the first exactly to the second, and MIDI key numbers follow the sounding height.',
 ['inputs'],'every pitch, every interval, every scale',
 'tests transpose a few notes by a few intervals',
 ['quickly/transpose.py'],[('Transposer','quickly/transpose.py:Transposer')])
p('M03','Music edits change only what lies inside the selected range',
 'Pitch and rhythm operations read context from before the selection but write only nodes that lie inside the range they were given, and only the kind of property (pitch head, octave mark, duration) they are about. Every node inside the range to which the operation applies is processed. A selection in a document stands for exactly the nodes that lie completely in it, together with all they contain; a selection without any node changes nothing.',
 ['inputs','histories'],'every document, every range, every operation',
 'tests run operations on full documents',
 ['quickly/pitch.py','quickly/transpose.py','quickly/relative.py','quickly/rhythm.py','quickly/dom/edit.py'],[('edit_cursor','quickly/dom/edit.py:Edit'),('edit_range and process loops','quickly/pitch.py, transpose.py, relative.py, rhythm.py')])
p('M04','Pitch operations agree on references, chords, octaves and exempt music',
 'Converting to absolute, converting to relative and transposing follow pitches in the same way. Each note in relative music follows the note before; the notes of a chord follow one another and the next note follows the first note of the chord; a note after an octave check follows the octave check; without a start pitch the first note is absolute or follows middle C as configured or as the LilyPond version demands. Every note is written with exactly the octave that this gives, also when it is transposed, and an octave check is transposed along with its note. Commands that set a key, tuning or transposition and music in absolute, fixed or transposed blocks are treated by their own rules and do not change the reference of the music around them; all other music is visited, so that converting keeps every sounding pitch.',
 ['inputs'],'every nesting of relative, fixed, absolute, chords, checks and transposed music',
 'tests have no nested or chord cases for the conversions',
 ['quickly/relative.py','quickly/transpose.py','quickly/pitch.py'],[('Rel2abs, Abs2rel, Transpose','quickly/relative.py, quickly/transpose.py')])
p('M05','Note names are read and written in the language in force',
 'Each note is read and written in the pitch language that the nearest preceding language command or language include selects, also for an operation that starts in the middle of a document. Unknown or missing language names leave the language in force unchanged instead of failing.',
 ['inputs'],'every placement of language commands, every language name, every range',
 'tests have a single language switch at the top',
 ['quickly/pitch.py',LI],[('find_language, follow_language','quickly/pitch.py:PitchProcessor'),('Include/Language','quickly/dom/lily.py')])
p('M06','Each pitch language writes names that it reads as the same pitch',
 'In every supported pitch language, with every preference for alternative spellings, the name written for a step and alteration is read back in the same language as that step and alteration, and the octave marks written with it give the same octave. No two pitches share a name in one language.',
 ['inputs','configurations'],'every language, step, alteration and preference',
 'tests sample some names in some languages',
 ['quickly/pitch.py'],[('pitch name tables','quickly/pitch.py')])
p('R01','Rhythm edits keep explicit what the music needs to be explicit',
 'Operations that remove or rewrite durations remove a duration only where leaving it out keeps the meaning, never on an element that requires an explicit duration and never with other than the previous duration in force; an element only counts as previous when its kind passes its duration on. All rhythm operations treat non-durable and fixed-duration elements alike.',
 ['inputs'],'every sequence of music elements and every rhythm operation',
 'tests run each operation on one line of notes',
 ['quickly/rhythm.py',LI],[('EditRhythm subclasses','quickly/rhythm.py')])
p('R02','Properties added to a note, rest or chord land at a legal place',
 'When a pitch mark, octave, check, duration or articulation is set on a note, chord or rest, the new part is placed in the order the input language prescribes, whichever other parts are present, and setting it again replaces it instead of adding a second. Removing it removes the part and nothing else.',
 ['inputs','histories'],'every combination and order of parts set on every music element type',
 'tests set one or two parts on notes',
 [LI,EL],[('child_order/add, HandleDuration, Pitchable, Durable','quickly/dom/lily.py')])
p('L01','A lookup without an answer never breaks its caller',
 'Lookups of variables, includes, keys, previous durations and positions may find nothing; every user of such a lookup copes with that answer, and answers consisting of several values are taken in the order they are given. Asking not to wait is passed on to everything that could wait.',
 ['inputs','histories'],'every document with unresolved, circular or absent references',
 'tests only ask for what exists',
 ['quickly/time.py','quickly/key.py',LI,'quickly/dom/scope.py'],[('optional-returning lookups','quickly/dom/lily.py, quickly/time.py, quickly/dom/scope.py')])
p('S01','Following includes always ends and unreadable files are skipped',
 'Following include statements terminates for every constellation of files, also when they include each other in a circle, resolves relative to the including file first and then along the search path, and treats a missing or unreadable file as absent. Nested scopes keep the search path, loading factory and settings of the scope they come from.',
 ['configurations','inputs'],'every include graph and file system state',
 'tests include nothing',
 ['quickly/dom/scope.py',LI],[('Scope.include, Scope search','quickly/dom/scope.py'),('get_value_with_scope','quickly/dom/lily.py')])
p('I01','Indenting one document leaves nothing behind for the next',
 'The output of the indenter depends only on the element written and the settings: every indent level opened by a block is closed by that block, also for nested and aligned blocks, a line that is aligned stands right below the child it is aligned with, and an indenter used again starts in a fresh state, also when it was interrupted. Settings are used by every writing method, and the text equals the unindented text apart from white space.',
 ['inputs','histories'],'every tree, every settings combination, repeated use of one indenter',
 'tests indent a few blocks with fresh indenters',
 ['quickly/dom/indent.py'],[('Indenter','quickly/dom/indent.py')])
p('H01','Markup helpers produce the command they are named after',
 'Each markup helper creates the markup command of its own name with exactly the number of arguments that the markup parser expects for that command. Every argument given is used once and in its place; every command the parser knows has a helper that can be called.',
 ['programs','inputs'],'every markup helper',
 'tests use two or three of more than a hundred helpers',
 ['quickly/dom/markup.py'],[('markup helper functions','quickly/dom/markup.py'),('markup command tables','parce.lang.lilypond_words')])
p('G01','No public operation trips over its own internals',
 'Every name, attribute, method and parameter that the code refers to exists where it is used, so no input can lead to a failure on an undefined name, a missing attribute of an own object or a call with the wrong number of arguments. Every instance has all its attributes set, whichever way it was created.',
 ['inputs','programs'],'every code path of every module',
 'each path needs its own input; much of the code is never run by the tests',
 ['quickly'],[('all modules','quickly/**/*.py')])
p('C01','Element types with a fixed text cannot get out of shape',
 'Every element type stays free of per-instance dictionaries, fixed heads and tails cannot be assigned, and every concrete type with text has the text its base demands: head for head elements, head and tail for block elements, a complete table for fixed-choice elements. Each declared argument pattern and child order names existing element types only.',
 ['programs'],'every element class in every module',
 'tests touch a small part of the several hundred classes',
 [EL,LI,'quickly/dom/htm.py','quickly/dom/scm.py','quickly/dom/tex.py','quickly/dom/base.py'],[('class definitions','quickly/dom/*.py')])
p('K01','Key arithmetic is consistent with the circle of fifths',
 'For every tonic and mode, the alterations, accidentals and names derived from a key agree with each other and with the scale of the mode, in any octave. Transposing a key transposes each of its notes by the same interval. Key numbers converted to pitches, in any key, and back stay the same.',
 ['inputs'],'every key signature and every pitch',
 'tests check a few keys',
 ['quickly/key.py'],[('KeySignature, accidental logic','quickly/key.py')])
p('D01','Duration names, values and dots convert back and forth',
 'For every duration that can be written, converting its text to a value and back gives the same text, with dots and scaling; named durations longer than a whole note included. The tables of names are complete, distinct and in order of halving values. A value counts as writable exactly when it is one of those; other values are truncated to the longest such duration that is not longer. Combined shifts and scalings have the effect of one after the other.',
 ['inputs'],'every duration',
 'tests convert a sample of durations',
 ['quickly/duration.py'],[('log tables and to_string/from_string','quickly/duration.py')])
p('V01','Time positions follow the music',
 "The length of sequential music is the sum and of simultaneous music the maximum of its parts; a note without duration takes that of the preceding one, whatever was asked before; scaling and shifting commands apply to everything inside them, notes before the main note of a grace command and chord members take no time, a variable takes the length of what it stands for, where it is defined. Numbers and pitches given as argument to a command take no time, music given as argument does. The position of a node is what comes before it in its outermost music expression, the duration between two nodes is the difference of their positions plus the length of the last one, and a position in the text or a selection gives the same as the nodes it touches.",
 ['inputs'],'every music expression',
 'tests compute a few lengths',
 ['quickly/time.py',LI],[('Time, TimeContext, time_length/time_scaling','quickly/time.py, quickly/dom/lily.py')])
p('N01','Numbers convert to names and back',
 'Letters, roman numerals and words produced for a number convert back to the same number for every positive number in their range. ',
 ['inputs'],'every integer in range','tests sample numbers',
 ['quickly/numbering.py'],[('conversion functions','quickly/numbering.py')])
p('W01','Written text parses back to the same document',
 'Writing a document built from elements and reading the text again yields an equal document, for every well-formed combination of elements. Preferred white space never changes the meaning.',
 ['inputs'],'every well-formed element tree','tests read back a few snippets',
 [EL,'quickly/dom/util.py'],[('write, combine_text, collapse_whitespace','quickly/dom/element.py, util.py')])
p('Q01','Range iteration covers exactly the fragment between its boundaries',
 'The nodes of a range are exactly those from its start node up to and including its end node in document order; none when the end precedes the start. Walking forward, backward, over children or descendants, from any node in the range, membership, intersection and extraction all agree with that set. After nodes are inserted, replaced or removed through the range, it has the same nodes as before, as far as they are still there, and an iteration that is going on visits every remaining node once.',
 ['inputs','histories'],'every tree, pair of nodes, and history of edits through the range','tests iterate over a few ranges of one tree',
 [N],[('Range and its levels','quickly/node.py')])
with open('/verif/properties.jsonl','w') as f:
    for d in P: f.write(json.dumps(d,ensure_ascii=False)+'\n')
print(len(P))
