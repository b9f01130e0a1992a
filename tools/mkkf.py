import json,subprocess
o=[]
def op(prop,mode,args,obs,what,site): o.append(dict(property=prop,status='open',witness=dict(mode=mode,args=args,observed=obs),what=what,site=site))
rej='rejected '
op('P01','parse',['1','match x:\n'],'panic .*not yet implemented',"a statement that starts with the name 'match' (also 'match = 1') panics: the match statement is not implemented",'src/parser/patterns.rs parse_patterns_match')
op('P07','parse',['1','match = 1\n'],'panic .*not yet implemented',"an ordinary statement that starts with the name 'match' (match = 1) panics",'src/parser/patterns.rs parse_patterns_match')
op('P01','parse',['0','('*60000],'panic|crash|$',"unbounded recursion: 60000 nested '(' exhaust the stack and abort the process",'src/parser/expressions.rs (recursive descent without depth limit)')
op('P07','parse',['1','yield\n'],rej,"bare 'yield' (as a statement and on the right of an assignment) is rejected",'src/parser/expressions.rs parse_expressions_yield_expr')
op('P05','parse',['0','{a for a in b}'],rej,'set comprehensions are rejected','src/parser/expressions.rs parse_expressions_dictorset_maker')
op('P05','parse',['0','{a: b for a in b}'],rej,'dictionary comprehensions are rejected','src/parser/expressions.rs parse_expressions_dictorset_maker')
op('P07','parse',['1','x = *a, b\n'],rej,'a starred element on the right of an assignment is rejected','src/parser/statements.rs parse_statements_expr_stmt')
op('P09','parse',['1','for x in *a, b:\n    pass\n'],rej,'a starred element in the iterable of a for statement is rejected','src/parser/statements.rs parse_statements_for_stmt')
op('P11','parse',['2','if x:\n    pass\n\n'],rej,'a compound statement is never accepted as single input: no newline token follows its block','src/parser/blocks.rs parse_blocks_single_input')
op('P09','parse',['1','with (a) as b:\n    pass\n'],rej,"'with (a) as b:' is rejected: a parenthesis after 'with' is always taken as the item list",'src/parser/statements.rs parse_statements_with_stmt')
op('P09','parse',['1','with a:  # type: t\n    pass\n'],rej,'a type comment after a with statement is rejected: its node has no place for one','src/parser/statements.rs parse_statements_with_stmt')
op('P11','parse',['1','pass'],rej,'a last line without line break is rejected: no newline token is implied at the end of the text','src/parser/tokenizer.rs get_symbol end of text; src/parser/statements.rs parse_statements_simple_stmt')
op('P10','parse',['1','def f(a):\n    pass\n'],rej,'function parameters are not implemented: def f(a) is rejected','src/parser/blocks.rs parse_blocks_typed_args_list')
CR=('a\r\nb\n',r'AtomName@0\.\.1 Newline@1\.\.4 EOF@5')
W='a CR LF line break is taken as three characters, so the first character of the next line is lost: the existing tests (statements.rs) expect that width'
for P in ('L02','L09'): op(P,'lex',[CR[0]],CR[1],W,'src/parser/tokenizer.rs get_symbol, newline arm for CR LF')
op('L10','lex',['(\r\na'],r'PyLeftParen@0\.\.1 EOF@',W,'src/parser/tokenizer.rs get_symbol, newline arm for CR LF')
op('L08','lex',['a:\n b'],r'AtomName@0\.\.1 PyColon@1\.\.2 Newline@2\.\.3 Indent@0\.\.0 AtomName@4\.\.5 EOF@5\.\.5','blocks are not closed when the last line of the text has no line break','src/parser/tokenizer.rs get_symbol end of text')
fixes='''f2b8d1c L08 a dedent to a column between two enclosing levels was accepted
4d1f33d P05 comprehension and for-loop targets were parsed as comparisons: 'for x in y' never found its 'in'
57bd65d P07 trailing comma at the end of an expression list (del a,) was rejected
4dec1c9 P08 every import statement recursed into itself without end
cbfe290 P05 the empty dictionary {} was rejected
74b6950 P05 a dictionary display stopped after its second entry
97f64eb P12 later dictionary and set entries started at the start of the display
4fd39a2 P05 trailing comma in tuple and list displays was rejected
092fc92 P06 slice parsing swallowed the closing bracket after its second part
bd53f0c P06 trailing comma in a subscript list was rejected
1e315b6 P06 call arguments were parsed as subscripts
acc01d4 P07 assert looked for 'from' instead of ',' before its message
f5fc36a P10 'async def' parsed its function as a class
0fa2567 P10 a decorator did not move past its newline
69bb911 P09 'with x as y' built an except node
c22f5a5 P10 class bases were parsed as lambda parameters
ea475ba P10 a function definition without parameter list was accepted
43fabe0 P09 conditions of if, elif and while rejected assignment expressions
7e14d41 P11 trailing comma before ':', '=' or a type comment in a test list was rejected
20f55b4 P04 trailing comma in a parenthesised yield was rejected
26eee0c P08 trailing comma in a parenthesised import list was rejected
e86e83a P09 a nested try statement disturbed the except kind of the outer one
a3d50a7 P06 trailing comma in a lambda parameter list was rejected
99bb9c7 P06 a bare '*' before keyword-only lambda parameters was rejected
1149691 P06 star parameters of a lambda accepted a default value
89f21eb L08 a line after a blank or comment line lost its indentation handling
4e1645a L10 comments and blank lines before an indent or dedent were dropped
47d0016 L10 newline trivia always claimed to be a carriage return and line feed
4754a74 L05 a number starting with zero swallowed the next character
ce5d855 L05 digit separators in numbers starting with zero were rejected
c647274 L05 an exponent without digits was accepted
82f7d75 L06 bytes literal prefixes were not recognised
fed2a6a L06 a backslash in a string literal did not escape the next character
e46dd65 L08 white space before the end of the text opened a block'''
for l in fixes.split('\n'):
    c,p,w=l.split(' ',2); o.append(dict(property=p,status='fixed',entry='fixed: property=%s %s %s'%(p,c,w)))
json.dump(o,open('/verif/known_findings.json','w'),indent=1)
