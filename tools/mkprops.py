import json
T='src/parser/tokenizer.rs'; X='src/parser/expressions.rs'; S='src/parser/statements.rs'; B='src/parser/blocks.rs'; F='src/parser/functions.rs'; N='src/parser/nodes.rs'; SB='src/parser/source_buffer.rs'; TK='src/parser/tokens.rs'
P=[]
def p(id,title,st,qt,why,files,mech,obs,over=('inputs',),state=None):
    a=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=obs,hook_needed=None)
    if state: a['state']=[dict(name=n,meaning=m,where=w) for n,m,w in state]
    P.append(dict(id=id,title=title,statement=st,quantifier=dict(over=list(over),text=qt),why_tests_cant=why,anchors=a))
LEX='the token sequence returned by repeated calls of the tokenizer on a text'
TREE='the tree (or error) returned by the parser entry points for a program'
LT='The tokenizer tests feed single well-formed tokens and look at the first result; '
PT='Each parser test feeds one fixed sentence and compares one tree; '
p('L01','Tokenizer is total and always reaches the end','For every text, repeatedly asking for the next token never panics or loops and reaches either the end-of-text token or a lexical error within a number of calls linear in the length of the text. The end-of-text token is only reported at the end of the text (a NUL character counts as the end), and once reported every further request reports it again.','every text (any characters, any length)',LT+'they cannot show that no text makes it panic, stall or stop early.',[T,SB],[('get_symbol loop',T+' get_symbol'),('bounds-safe character access',SB+' get_char, peek_three_chars')],[LEX],state=[('index','read position in the text',SB+' SourceBuffer.index'),('pending','indents/dedents still to report',T+' pending')])
p('L02','Token spans are ordered, disjoint and exact','For every text, token start and end positions are character offsets that never overlap or run backwards, each token covers exactly the characters it was read from, and the characters between two consecutive tokens are only white space, comments, line breaks that do not end a statement, and line continuations. The end-of-text token lies at the end of the text.','every text, every consecutive pair of tokens',LT+'positions of a second token, or of a token after trivia, are almost never looked at.',[T,SB],[('token_start_position',T+' get_symbol'),('advance/get_position',SB)],[LEX])
p('L03','Operators and delimiters are read by longest match','For every text, an operator or delimiter token is the longest operator that the text has at that position, and it is reported with the kind that belongs to that spelling. A character that starts no token is a lexical error.','every text; every operator and everything that may follow it',LT+'one test per operator spelling cannot cover what follows the operator.',[T,TK],[('three-character match, longest first',T+' get_symbol operator arms')],[LEX])
p('L04','Names and keywords are recognised exactly','For every text, a maximal run of letters, digits and underscores that starts with a letter or underscore is one token: the keyword token when the run is exactly a reserved word (case matters), otherwise a name token carrying exactly those characters. Names that merely begin or end like a keyword or string prefix stay names.','every text, ASCII and non-ASCII letters',LT+'near-miss spellings of the 35 reserved words are not sampled.',[T,TK],[('name scan and keyword table',T+' get_symbol name arm')],[LEX])
p('L05','Numeric literals follow the literal grammar','For every text, a numeric literal token carries exactly the longest literal at that position (decimal, hexadecimal, octal, binary, point, exponent, imaginary, digit separators), with nothing dropped or duplicated. A malformed literal (misplaced digit separator, missing digits after a base prefix or exponent, leading zeros in a non-zero integer) is a lexical error, and a well-formed one never is.','every text that contains digits, points, separators, exponents, suffixes in any order',LT+'the literal grammar is a state machine with many interleavings of separators, points and exponents, of which a few dozen spellings are sampled.',[T],[('number arms',T+" get_symbol ('0'..), ('.','0'..='9'), ('1'..='9')")],[LEX])
p('L06','String literals end where they should and keep their text','For every text, a string literal token starts at its (optional, case-insensitive) prefix, ends at the first matching unescaped quote or triple quote, and carries the prefix and the literal text between and including the quotes unchanged. A single-quoted literal that meets a line break or the end of the text, and a triple-quoted one that meets the end of the text, is a lexical error.','every text with quotes, backslashes, line breaks and prefixes in any order',LT+'escapes, quotes inside triple-quoted text and unterminated forms combine in more ways than are sampled.',[T],[('string scan',T+' handle_string'),('prefix arm',T+' get_symbol name arm')],[LEX])
p('L07','Brackets match and suspend line structure','For every text, a closing bracket is accepted only when it matches the innermost open bracket and is otherwise a lexical error. Between an open bracket and its match no line break, indentation or dedentation is reported, whatever lines lie in between, and line structure resumes after the outermost bracket closes.','every text: every nesting and interleaving of brackets, line breaks, blank lines and comments',LT+'nesting is only tried for one level and without line breaks inside.',[T],[('bracket stack',T+' get_symbol bracket arms'),('newline as trivia inside brackets',T+' get_symbol newline arms')],[LEX],over=('inputs','histories'),state=[('parenthesis','stack of closers still expected',T+' parenthesis')])
p('L08','Indents and dedents mirror the indentation of lines','For every text, outside brackets a logical line that is indented deeper than the enclosing block yields exactly one indent, one that returns to an enclosing level yields exactly one dedent per closed block, and one that matches no enclosing level is a lexical error; tabs advance to the next multiple of four columns. By the end of the text every indent has been closed by a dedent.','every text: every sequence of line indentations, blank and comment lines between them',LT+'tokenizer tests never exercise a second line, and sequences of levels are unbounded.',[T],[('indent stack and pending count',T+' get_symbol beginning-of-line part')],[LEX],over=('inputs','histories'),state=[('indent_stack','columns of the open blocks',T+' indent_stack'),('pending','indents/dedents still to report',T+' pending')])
p('L09','Line breaks: statements, blank lines and continuations','For every text, a line break outside brackets yields exactly one newline token when its line has content, and none when the line is blank or holds only a comment; the three line-break conventions behave alike. A backslash directly before a line break joins the lines without any token, and a backslash anywhere else outside a string is a lexical error.','every text: every arrangement of contents, blanks, comments, continuations and line-break conventions',LT+'multi-line arrangements are not sampled at all.',[T],[('newline arms',T+' get_symbol'),('line continuation arms',T+' get_symbol'),('blank line detection',T+' get_symbol beginning-of-line part')],[LEX])
p('L10','White space and comments are kept in order, without loss','For every text, each run of blanks, each tab, each comment, each line break that ends no statement and each line continuation (other than indentation at the start of a line) is attached exactly once, with its exact position and text, to the token that follows it. A comment that starts with the type-comment marker is reported as a type comment token carrying its text instead.','every text with white space, comments, blank lines and continuations before any kind of token',LT+'trivia is checked for a single blank only.',[T,'src/parser/trivias.rs'],[('trivia collector',T+' get_symbol'),('type comment',T+' get_symbol')],[LEX])
p('P01','Parser is total on every token sequence','For every text and every entry point the parser returns a tree or an error: it never panics, never recurses or loops without consuming input, and asks for no more than a linear number of tokens.','every program text, well formed or not, for all four entry points (file, evaluation, single line, function type)',PT+'ill-formed programs are hardly sampled, and totality is about all of them.',[B,X,S,F,'src/parser/parser.rs'],[('recursive descent with one symbol of look-ahead',X+', '+S+', '+B+', '+F)],[TREE],over=('programs',))
p('P02','An accepted program is represented completely','For every accepted program, every token of the text occurs exactly once in the tree, unchanged (kind, position, text, trivia), so that the text can be rebuilt from the tree; indents and dedents are paired.','every accepted program',PT+'a tree that drops or duplicates a separator or keyword in some other arrangement passes.',[X,S,B,F,N],[('node constructors take the consumed symbols',X+', '+S+', '+B+', '+F)],[TREE],over=('programs',))
p('P03','Expressions obey operator precedence and associativity','For every expression, the tree groups operators by the precedence and associativity of the Python language (conditional, lambda, or, and, not, comparison, |, ^, &, shifts, additive, multiplicative, unary, power, await), and an operator sequence that the grammar does not allow is rejected.','every expression over all operators, operands and parentheses',PT+'precedence relates every pair (and longer chain) of operators; tests chain equal operators.',[X],[('one parsing function per precedence level',X+' parse_expressions_or_test .. parse_expressions_power')],[TREE],over=('programs',))
p('P04','Atoms, trailers and enclosures are parsed exactly','For every sequence of names, literals, calls, subscripts, attribute accesses and enclosures, trailers attach left to right to the atom before them, adjacent string literals form one atom, and empty and nested parentheses and brackets keep their own node. Anything else at that place is rejected.','every arrangement of atoms, trailers and enclosures',PT+'chains of trailers and nested or unbalanced enclosures are not sampled.',[X],[('atom and trailer parsing',X+' parse_expressions_atom, parse_expressions_atom_expr, parse_expressions_trailer')],[TREE],over=('programs',))
p('P05','Collections and comprehensions are parsed exactly','For every tuple, list, set and dictionary display and every comprehension, all elements, keys, values, unpackings, clauses and separators appear in the tree in order under the right kind of node, with a trailing comma allowed. Mixed or misplaced entries (a key without value, set and dictionary entries together, a clause without its target or iterable) are rejected.','every display and comprehension',PT+'lengths, trailing separators and clause nesting are unbounded.',[X],[('display and comprehension parsing',X+' testlist_comp, dictionary_or_set_maker, comp_for, comp_if, comp_iter')],[TREE],over=('programs',))
p('P06','Call arguments, slices and lambda parameters are parsed exactly','For every call argument list, subscript list and lambda parameter list, each argument, slice part and parameter (with its star, default, keyword, generator or positional-only marker) lands in its own place in the tree, in order, with a trailing comma allowed. Orders that the grammar forbids (a parameter after the double-star one, a default on a starred one, an empty entry) are rejected.','every argument, slice and parameter list',PT+'the optional parts combine in hundreds of ways.',[X],[('arglist, subscriptlist, varargslist',X)],[TREE],over=('programs',))
p('P07','Simple statements are parsed exactly','For every expression, assignment (chained, annotated, augmented, type-commented), del, pass, break, continue, return, raise, global, nonlocal and assert statement, and for several of them on one line, the tree has the right node with every part in its place and order. Statements whose parts are missing or out of place are rejected.','every line of simple statements',PT+'optional parts and separators combine in more ways than are sampled.',[S],[('simple and small statements',S+' parse_statements_simple_stmt .. assert_stmt')],[TREE],over=('programs',))
p('P08','Import statements are parsed exactly','For every import statement, relative dots, dotted module name, imported names, aliases, star and parentheses appear in the tree in order and in their own place. Forms the language does not have (no module at all, alias without name, empty or unclosed parentheses, trailing comma outside parentheses) are rejected.','every import statement',PT+'dots, aliases, parentheses and separators combine freely.',[S],[('import statements',S+' import_stmt .. dotted_name')],[TREE],over=('programs',))
p('P09','Compound statements keep their clauses','For every if, while, for, try and with statement, conditions, targets, items, bodies and each elif, else, except and finally clause appear in the tree in order and belong to the statement they were written for, also when statements are nested. A clause out of order, missing or of mixed kind (plain and starred except) is rejected.','every compound statement, nested to any depth',PT+'sequences of clauses and nesting are unbounded.',[S],[('compound statements',S+' if_stmt, while_stmt, for_stmt, try_stmt, with_stmt')],[TREE],over=('programs',),state=[('except_status','kind of except clauses seen','src/parser/parser.rs')])
p('P10','Definitions, classes, decorators and async are parsed exactly','For every function definition, class definition, decorator list and async statement, name, return annotation, bases, decorator names and arguments, type comment and body appear in the tree in order, and decorators and async attach to the definition that follows. Anything but a definition after decorators, or anything but a definition, loop or with statement after async, is rejected.','every definition, decorated or async, with any body',PT+'optional parts combine freely and bodies may be blocks or lines.',[S,B,F],[('class, decorator, async',S+', '+B),('function definition',F)],[TREE],over=('programs',))
p('P11','Blocks and whole inputs consume exactly their text','For every program, a block holds exactly the statements indented under its header, a file is the sequence of its statements up to the end of the text, an evaluation or function-type input is one expression or type followed only by line breaks, and a single input is one line. Text left over, a missing block or an unexpected indentation is rejected.','every arrangement of statements, line breaks, indents and dedents, for all entry points',PT+'blocks of several statements, nested blocks and left-over text are not sampled.',[S,B],[('suite',S+' parse_statements_suite'),('file, eval, single, func_type inputs',B)],[TREE],over=('programs',))
p('P12','Nodes span exactly the text they represent','For every accepted program, the start position of a node is the start of its first token and its end position is the position of the token that follows its last one, so a child never reaches outside its parent and siblings do not overlap.','every node of every accepted program outside blocks',PT+'spans of inner nodes, of later list entries and of nodes after optional parts are only sampled.',[X,S,B,F,N],[('start/end taken around each production',X+', '+S+', '+B+', '+F)],[TREE],over=('programs',))
p('P13','A lexical error is never swallowed','For every program, when the text that the parser has to read contains a lexical error, the parser returns an error and not a tree, at whatever place of whatever construct the error sits.','every program with a lexical error at any place, for all entry points',PT+'no test puts a lexical error behind a valid prefix.',[X,S,B,F,'src/parser/parser.rs'],[('errors of advance are propagated',X+', '+S+', '+B+', '+F)],[TREE],over=('programs','fault_sequences'))
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
