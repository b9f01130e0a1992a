"""The planted bugs: id, property, edits (file, old text, new text), demo, what it needs, what it breaks."""
T = 'parser/tokenizer.rs'; X = 'parser/expressions.rs'; ST = 'parser/statements.rs'; BL = 'parser/blocks.rs'; PA = 'parser/parser.rs'; FN = 'parser/functions.rs'; SB = 'parser/source_buffer.rs'
BUGS = []
def bug(id, prop, edits, demo, needs, breaks, also=()): BUGS.append(dict(id=id, property=prop, edits=edits, demo=demo, needs=needs, breaks=breaks, also=list(also)))

bug('l01-comment-at-end', 'L01', [(T, r"""                                    '\r' | '\n' | '\0' => false,
                                    _ => {""", r"""                                    '\r' | '\n' => false,
                                    _ => {""")],
    r'''    assert_eq!(toks("a # last").last().unwrap().starts_with("EOF"), true);''',
    'a text whose last line ends in a comment without a line break', 'the tokenizer never returns: the comment scan runs past the end of the text for ever, filling memory')
bug('l03-dot-before-numeric', 'L03', [(T, "( '.', s , _ ) if s.is_ascii_digit() == false => {", "( '.', s , _ ) if s.is_numeric() == false => {")],
    r'''    assert_eq!(toks(".\u{bd}")[0], "PyDot(0, 1, None)"); assert_eq!(toks(".x")[0], "PyDot(0, 1, None)");''',
    "a '.' directly before a numeric character that is no ASCII digit", "the '.' is no longer read as the delimiter '.': the tokenizer reports an error at it")
bug('l04-underscore-keyword', 'L04', [(T, "                match buffer.as_str() {\n                    \"False\"", "                match buffer.as_str().trim_start_matches('_') {\n                    \"False\"")],
    r'''    has(&toks("_if")[0], "AtomName(0, 3"); has(&toks("__in")[0], "AtomName(0, 4"); has(&toks("if")[0], "PyIf(0, 2");''',
    'a name made of underscores followed by a keyword', 'such names are read as keywords')
bug('l06-triple-end', 'L06', [(T, "( a, b, c) if quote == a && quote == b && quote == c => {", "( a, b, c) if quote == a && quote == b && ( c == '\\'' || c == '\"' ) => {")],
    r"""    has(&toks("'''a''\"b'''")[0], "AtomString(0, 11"); has(&toks("'''a'''")[0], "AtomString(0, 7");""",
    'two quotes of the string followed by a quote of the other kind inside a triple quoted string', 'the string ends early and swallows a foreign quote')
bug('l08-tab-width', 'L08', [(T, "col = (col / self.tab_size + 1) * self.tab_size;", "col += self.tab_size;")],
    r'''    let t = toks("if a:\n \tb\n    c\n"); assert!(t.iter().all(|x| x != "ERR"), "{:?}", t); assert_eq!(t.iter().filter(|x| x.starts_with("Indent")).count(), 1);''',
    'a line indented by a blank followed by a tab', 'a tab advances by a full tab width instead of to the next tab stop, so equal indentations differ')
bug('l09-cr-newline', 'L09', [(T, r"""                    ( '\r', _ , _ ) => {
                        let _ = self.source_buffer.advance();
                        self.is_at_beginning_of_line = true;""", r"""                    ( '\r', _ , _ ) => {
                        let _ = self.source_buffer.advance();
                        self.is_at_beginning_of_line = self.parenthesis.is_empty() == false || self.indent_stack.len() > 1;""")],
    r'''    let t = toks("if a:\r  b\r"); assert_eq!(t.iter().filter(|x| x.starts_with("Indent")).count(), 1, "{:?}", t);''',
    "lone '\\r' line breaks and an indented line after an unindented one", 'the line after the break is not treated as a new line: its indentation becomes white space')
bug('l09-continuation-crlf', 'L09', [(T, r"""                    ( '\\', '\r', '\n' ) => {
                        for _i in 1 ..= 3 {""", r"""                    ( '\\', '\r', '\n' ) => {
                        for _i in 1 ..= 2 {""")],
    r'''    let t = toks("a \\\r\n+ b"); assert!(t.iter().all(|x| !x.starts_with("Newline")), "{:?}", t);''',
    "a continuation before a '\\r\\n' line break", "the '\\n' of the continued line break ends the statement")
bug('l10-comment-order', 'L10', [(T, r"""                        match buffer.as_str().starts_with("# type:") {
                            true => return Ok(Box::new(Token::TypeComment(self.token_start_position, self.source_buffer.get_position(),
                                                                          match trivia_collector.len() { 0 => None, _ => Some( { trivia_collector.reverse(); trivia_collector } ) }, Box::new(buffer)))),""",
 r"""                        match buffer.as_str().starts_with("# type:") {
                            true => return Ok(Box::new(Token::TypeComment(self.token_start_position, self.source_buffer.get_position(),
                                                                          match trivia_collector.len() { 0 => None, _ => Some( trivia_collector ) }, Box::new(buffer)))),""")],
    r'''    let t = toks("a \t# type: b"); let (b, c) = (t[1].find("WhiteSpace(1").unwrap(), t[1].find("WhiteSpace(2").unwrap()); assert!(b > c, "{:?}", t);''',
    'two pieces of white space of different kinds before a type comment', 'its trivia come in the opposite order to those of every other token')
bug('p01-not-without-in', 'P01', [(X, "                                    _ => {\n                                        return Err(format!(\"SyntaxError at {}: Expecting 'in' pr 'not in' in comparison expression!\", start_pos))", "                                    _ => {\n                                        unreachable!(\"SyntaxError at {}: Expecting 'in' pr 'not in' in comparison expression!\", start_pos)")],
    r'''    assert_eq!(eval("a not b"), "ERR");''', "'not' after an operand without 'in'", 'the parser panics instead of returning an error')
bug('p02-for-type-comment', 'P02', [(ST, "                                                                    Token::PyElse(..) => {\n                                                                        let else_node = Some( self.parse_statements_else_stmt()? );\n                                                                        Ok(Box::new( ASTNode::ForStmt(start_pos, self.lexer.get_position(), symbol1, left_node, symbol2, right_node, symbol3, tc_symbol, next_node, else_node) ))", "                                                                    Token::PyElse(..) => {\n                                                                        let else_node = Some( self.parse_statements_else_stmt()? );\n                                                                        Ok(Box::new( ASTNode::ForStmt(start_pos, self.lexer.get_position(), symbol1, left_node, symbol2, right_node, symbol3, None, next_node, else_node) ))")],
    r'''    has(&file("for a in b: # type: c\n  d\nelse: e\n"), "TypeComment("); has(&file("for a in b: # type: c\n  d\n"), "TypeComment(");''',
    "a 'for' statement with both a type comment and an 'else'", 'the type comment is consumed but missing in the tree')
bug('p03-invert-operand', 'P03', [(X, "                        let right_node = self.parse_expressions_factor()?;\n                        Ok(Box::new(ASTNode::UnaryInvert(", "                        let right_node = self.parse_expressions_power()?;\n                        Ok(Box::new(ASTNode::UnaryInvert(")],
    r'''    hasnt(&eval("~-a"), "ERR"); hasnt(&eval("-~a"), "ERR");''', "'~' in front of another unary operator", 'the operand of ~ is parsed too low: ~-a is rejected')
bug('p04-string-concat', 'P04', [(X, "                                        Token::AtomString(..) => {\n                                            lst.push(Box::new(symbol1));", "                                        Token::AtomString(_, _, _, _, None) => {\n                                            lst.push(Box::new(symbol1));")],
    r'''    hasnt(&eval("'a' b'c'"), "ERR"); hasnt(&eval("b'a' 'c'"), "ERR");''', 'a string literal with a prefix directly after another string literal', 'adjacent string literals are no longer joined into one atom')
bug('p05-comp-if-async', 'P05', [(X, "                                    Token::PyAsync( .. ) |\n                                    Token::PyFor( .. ) |\n                                    Token::PyIf( .. ) => {\n                                        let next_node", "                                    Token::PyFor( .. ) |\n                                    Token::PyIf( .. ) => {\n                                        let next_node")],
    r'''    hasnt(&eval("[a for b in c if d async for e in f]"), "ERR");''', "an 'async for' clause after an 'if' clause of a comprehension", 'a valid comprehension is rejected')
bug('p07-raise-from', 'P07', [(ST, "                                                        let right_node = self.parse_expressions_test()?;\n                                                        Ok(Box::new( ASTNode::RaiseStmt(", "                                                        let right_node = self.parse_expressions_or_test()?;\n                                                        Ok(Box::new( ASTNode::RaiseStmt(")],
    r'''    hasnt(&file("raise a from b if c else d\n"), "ERR"); hasnt(&file("raise a from lambda: b\n"), "ERR");''', "a conditional expression or lambda after 'raise .. from'", 'a valid raise statement is rejected')
bug('p08-relative-order', 'P08', [(ST, "                                _ => false\n                            } { };\n                        nodes_list.reverse();\n                        let mut left_node", "                                _ => false\n                            } { };\n                        if nodes_list.len() > 2 { nodes_list.reverse() }\n                        let mut left_node")],
    r'''    let s = file("from .... import a\n"); assert!(s.find("PyDot(8").unwrap() < s.find("PyElipsis(5").unwrap(), "{}", s);''', "exactly two leading dot tokens ('...' and '.') in a relative import", 'the leading dots are kept in the opposite order')
bug('p09-try-else-finally', 'P09', [(ST, "                                                                    Token::PyFinally(..) => {\n                                                                        right_node = Some(", "                                                                    Token::PyFinally(..) if else_node.is_none() || nodes_list.len() < 2 => {\n                                                                        right_node = Some(")],
    r'''    hasnt(&file("try: a\nexcept b: c\nexcept d: e\nelse: f\nfinally: g\n"), "ERR"); hasnt(&file("try: a\nexcept b: c\nelse: f\nfinally: g\n"), "ERR");''', "a 'try' with two 'except' clauses, an 'else' and a 'finally'", 'the finally clause is not recognised')
bug('p10-decorator-order', 'P10', [(BL, "        nodes_list.reverse();\n        Ok( Box::new( ASTNode::Decorators(", "        if nodes_list.len() != 2 { nodes_list.reverse() };\n        Ok( Box::new( ASTNode::Decorators(")],
    r'''    let s = file("@a\n@b\ndef c(): d\n"); assert!(s.find("PyMatrice(3").unwrap() < s.find("PyMatrice(0").unwrap(), "{}", s);''', 'exactly two decorators', 'the decorators of a definition are kept in the opposite order')
bug('p12-except-start', 'P12', [(ST, "        let start_pos = self.lexer.get_position();\n        let left_node = self.parse_statements_except_clause()?;", "        let left_node = self.parse_statements_except_clause()?;\n        let start_pos = match &*left_node { ASTNode::ExceptClauseStmt(_, end, _, Some(_), _) => *end, ASTNode::ExceptClauseStmt(start, ..) => *start, _ => 0 };")],
    r'''    has(&file("try: a\nexcept* b: c\n"), "ExceptStmt(7"); has(&file("try: a\nexcept b: c\n"), "ExceptStmt(7");''', "an 'except*' clause", 'the node of the clause starts at its colon instead of at its keyword')
bug('p13-retry', 'P13', [(PA, "        self.symbol = self.lexer.get_symbol()\n", "        self.symbol = self.lexer.get_symbol();\n        if self.symbol.is_err() && self.lexer.get_position() > 0 { self.symbol = self.lexer.get_symbol() }\n")],
    r'''    assert_eq!(file("a = 0x b\n"), "ERR"); assert_eq!(file("a = 0x\n"), "ERR");''', 'an error of the tokenizer after which the next call succeeds', 'the rejected characters vanish and the text is accepted')
bug('l05-octal-underscore', 'L05', [(T, """                                match self.source_buffer.get_char() {
                                    '0' ..= '7' => {},
                                    _ => {
                                        return Err( format!("Syntax Error at {} - Expected digit or '_' after '0o'""", """                                match self.source_buffer.get_char() {
                                    '0' ..= '9' => {},
                                    _ => {
                                        return Err( format!("Syntax Error at {} - Expected digit or '_' after '0o'""")],
    r"""    assert_eq!(toks("0o1_8"), vec!["ERR"]); has(&toks("0o1_7")[0], "AtomNumber(0, 5");""",
    "a '_' followed by 8 or 9 in an octal literal", "0o1_ is accepted as a literal, followed by the number 8")
bug('l05-underscore-before-dot', 'L05', [(T, """            ( '1' ..= '9', _ , _ ) => {
                let mut buffer = String::new();
                while   match self.source_buffer.get_char() {
                    '_' => {
                        buffer.push( self.source_buffer.get_char() );
                        let _ = self.source_buffer.advance();
                        match self.source_buffer.get_char() {
                            '0'..='9' => true,""", """            ( '1' ..= '9', _ , _ ) => {
                let mut buffer = String::new();
                while   match self.source_buffer.get_char() {
                    '_' => {
                        buffer.push( self.source_buffer.get_char() );
                        let _ = self.source_buffer.advance();
                        match self.source_buffer.get_char() {
                            '0'..='9' | '.' => true,""")],
    r"""    assert_eq!(toks("1_.5"), vec!["ERR"]); has(&toks("1_0.5")[0], "AtomNumber(0, 5");""",
    "a '_' directly before the '.' of a number", 'a malformed number is accepted')
bug('l06-cr-in-string', 'L06', [(T, "'\\0' | '\\r' | '\\n' => return Err(format!(\"Unterminated", "'\\0' | '\\n' => return Err(format!(\"Unterminated")],
    r"""    assert_eq!(toks("'a\rb'"), vec!["ERR"]);""", "a lone '\\r' inside a single quoted string", 'the string runs on across the line break')
bug('l07-last-of-kind', 'L07', [(T, """                match &self.parenthesis.last() {
                    Some( ']' ) => {""", """                match &self.parenthesis.iter().rev().find(|x| **x != '}') {
                    Some( ']' ) => {""")],
    r"""    assert_eq!(toks("[{]").last().unwrap(), "ERR"); assert_ne!(toks("[]").last().unwrap(), "ERR");""", "']' closing while an inner '{' is still open", 'brackets that do not match are accepted')
bug('l07-indent-in-brackets', 'L07', [(T, "                    if is_blank_line == false && self.parenthesis.is_empty() {", "                    if is_blank_line == false && self.parenthesis.len() < 2 {")],
    r"""    let t = toks("a = (b,\n  c)\n"); assert!(t.iter().all(|x| !x.starts_with("Indent") && x != "ERR"), "{:?}", t);""", 'a line break inside one pair of brackets followed by an indented line', 'indents are reported inside brackets')
bug('l03-arrow', 'L03', [(T, "            ( '-', '>', _ ) => {", "            ( '-', '>', c ) if c != '=' => {")],
    r"""    has(&toks("->=")[0], "PyArrow(0, 2"); has(&toks("->")[0], "PyArrow(0, 2");""", "'->' directly followed by '='", "'->=' is read as '-' '>=' instead of '->' '='")
bug('l04-ascii-continuation', 'L04', [(T, "                while self.source_buffer.get_char().is_alphanumeric() ||", "                while self.source_buffer.get_char().is_alphabetic() || self.source_buffer.get_char().is_ascii_digit() ||")],
    r"""    has(&toks("a\u{664}")[0], "AtomName(0, 2"); has(&toks("a4")[0], "AtomName(0, 2");""", 'a digit outside ASCII inside a name', 'the name ends early and the rest is an error')
bug('l08-pending-single', 'L08', [(T, """                                self.indent_stack.pop();
                                self.pending -= 1;""", """                                self.indent_stack.pop();
                                if self.indent_stack.len() == 1 || col > 0 && self.pending == 0 && self.indent_stack.len() != 2 { self.pending -= 1; } else if col == 0 { self.pending -= 1; }""")],
    r"""    let t = toks("a:\n b:\n  c\n d\n"); assert_eq!(t.iter().filter(|x| x.starts_with("Dedent")).count(), 2, "{:?}", t);""", 'a dedent from a nested block to the outer indented level', 'no dedent is reported for the inner block')
bug('l10-tab-trivia', 'L10', [(T, """                                let _ = self.source_buffer.advance();
                                trivia_collector.push(Box::new( Trivia::WhiteSpace(self.token_start_position, self.source_buffer.get_position(), '\\t') ) );""",
 """                                let _ = self.source_buffer.advance();
                                if trivia_collector.len() < 3 { trivia_collector.push(Box::new( Trivia::WhiteSpace(self.token_start_position, self.source_buffer.get_position(), '\\t') ) ); }""")],
    r"""    let t = toks("a \t \tb"); has(&t[1], "WhiteSpace(4, 5, '\\t')");""", 'white space that changes between blanks and tabs three times', 'a piece of white space is missing from the trivia')
bug('l01-curly-cr', 'L01', [(T, """                self.parenthesis.push('}');
""", """                if self.parenthesis.len() == 2 && self.source_buffer.get_char() == '\\r' { panic!("nesting") } else { self.parenthesis.push('}') }
""")],
    r"""    assert_ne!(toks("(({\r}))"), vec!["ERR"]);""", "a '\\r' line break right after '{' inside two other brackets", 'the tokenizer panics')
bug('p01-subscripts', 'P01', [(X, "                        let right = self.parse_expressions_subscript_list()?;\n", "                        let right = match self.parse_expressions_subscript_list()? { r => { if let ASTNode::SubscriptList(_, _, ref nodes, ref seps) = *r { assert!(seps.len() < 2 || nodes.len() == seps.len()) } r } };\n")],
    r"""    hasnt(&eval("a[b,c,d]"), "ERR"); hasnt(&eval("a[b,c,]"), "ERR");""", 'three subscripts without a trailing comma', 'the parser panics')
bug('p02-subscript-trailing', 'P02', [(X, """                            let symbol1 = (**s).clone();
                            separators_list.push( Box::new(symbol1) );
                            let _ = self.advance();
                            match &self.symbol {
                                Ok(s2) => {
                                    match &**s2 {
                                        Token::PyRightBracket(..) => { },
                                        _ => nodes_list.push( self.parse_expressions_subscript()? )""", """                            let symbol1 = (**s).clone();
                            let _ = self.advance();
                            match &self.symbol {
                                Ok(s2) => {
                                    match &**s2 {
                                        Token::PyRightBracket(..) if nodes_list.len() > 1 => { },
                                        Token::PyRightBracket(..) => separators_list.push( Box::new(symbol1) ),
                                        _ => { separators_list.push( Box::new(symbol1) ); nodes_list.push( self.parse_expressions_subscript()? ) }""")],
    r"""    has(&eval("a[b,c,]"), "PyComa(5"); has(&eval("a[b,]"), "PyComa(3");""", 'a trailing comma after two or more subscripts', 'the comma is missing in the tree')
bug('p03-ternary-else', 'P03', [(X, "                                                        let next = self.parse_expressions_test()?;", "                                                        let next = self.parse_expressions_or_test()?;")],
    r"""    hasnt(&eval("a if b else c if d else e"), "ERR"); hasnt(&eval("a if b else lambda: c"), "ERR");""", "a conditional expression or lambda after 'else'", 'nested conditional expressions are rejected')
bug('p04-dot-none', 'P04', [(X, """                                match &symbol2 {
                                    Token::AtomName(..) => {
                                        let _ = self.advance();
                                        Ok(Box::new(ASTNode::DotNameTrailer(""", """                                match &symbol2 {
                                    Token::PyNone(..) | Token::AtomName(..) => {
                                        let _ = self.advance();
                                        Ok(Box::new(ASTNode::DotNameTrailer(""")],
    r"""    assert_eq!(eval("a.None"), "ERR"); hasnt(&eval("a.b"), "ERR");""", "'None' after a '.'", 'a keyword is accepted as attribute name')
bug('p05-set-star', 'P05', [(X, """                                                Token::PyMul(..) => {
                                                    let symbol2 = (**s2).clone();
                                                    let _ = self.advance();
                                                    let right_node = self.parse_expressions_expr()?;""", """                                                Token::PyMul(..) => {
                                                    let symbol2 = (**s2).clone();
                                                    let _ = self.advance();
                                                    let right_node = self.parse_expressions_xor_expr()?;""")],
    r"""    hasnt(&eval("{a, *b | c}"), "ERR"); hasnt(&eval("{*b | c}"), "ERR");""", "a starred element with '|' after the first element of a set", 'a valid set is rejected')
bug('p06-star-argument', 'P06', [(X, """                    Token::PyMul(..) |
                    Token::PyPower(..) => {
                        let symbol1 = Some(Box::new((**s).clone()));
                        let _ = self.advance();
                        let right_node = Some( self.parse_expressions_test()? );""", """                    Token::PyMul(..) |
                    Token::PyPower(..) => {
                        let symbol1 = Some(Box::new((**s).clone()));
                        let _ = self.advance();
                        let right_node = Some( match &self.symbol { Ok(t) if matches!(**t, Token::PyNot(..)) => self.parse_expressions_comparison()?, _ => self.parse_expressions_test()? } );""")],
    r"""    hasnt(&eval("f(*not a)"), "ERR"); hasnt(&eval("f(*a)"), "ERR");""", "'not' directly after the star of a starred argument", 'a valid call is rejected')
bug('p06-argument-order', 'P06', [(X, """        nodes_list.reverse();
        separators_list.reverse();
        Ok(Box::new(ASTNode::ArgList(""", """        match &*nodes_list[0] { ASTNode::Argument(_, _, None, _, _) if nodes_list.len() == 2 => { }, _ => nodes_list.reverse() }
        separators_list.reverse();
        Ok(Box::new(ASTNode::ArgList(""")],
    r"""    let s = eval("f(*a, b)"); assert!(s.find("AtomName(6").unwrap() < s.find("AtomName(3").unwrap(), "{}", s);""", 'a call with a starred first argument and exactly one more', 'the arguments are kept in the opposite order')
bug('p09-bare-except-star', 'P09', [(ST, """                                            ET::ExceptMul => return Err(format!(""", """                                            ET::ExceptMul if matches!(self.symbol.as_deref(), Ok(Token::PyColon(..))) == false => return Err(format!(""")],
    r"""    assert_eq!(file("try: a\nexcept* b: c\nexcept: d\n"), "ERR"); hasnt(&file("try: a\nexcept* b: c\n"), "ERR");""", "a bare 'except:' after an 'except*' clause", 'the two kinds of clauses are mixed')
bug('p10-return-annotation', 'P10', [(BL, "                                                        let res_node = self.parse_expressions_test()?;", "                                                        let res_node = self.parse_expressions_or_test()?;")],
    r"""    hasnt(&file("def a() -> b if c else d: e\n"), "ERR"); hasnt(&file("def a() -> lambda: d: e\n"), "ERR");""", "a conditional expression as return annotation", 'a valid definition is rejected')
bug('p11-functype-power', 'P11', [(FN, """                                                                                            Token::PyPower(..) => {
                                                                                                power_symbol = Some( s );
                                                                                                let _ = self.advance();
                                                                                                power_node = Some( self.parse_expressions_test()? );
                                                                                                false""", """                                                                                            Token::PyPower(..) => {
                                                                                                power_symbol = Some( s );
                                                                                                let _ = self.advance();
                                                                                                power_node = mul_node.replace( self.parse_expressions_test()? );
                                                                                                false""")],
    r"""    let s = show(parser("(a, *b, **c) -> d").parse_blocks_func_type_input()); assert!(s.find("AtomName(5").unwrap() < s.find("AtomName(10").unwrap(), "{}", s);""", "a function type with positional, '*' and '**' types", "the types after '*' and '**' are exchanged")
bug('p11-suite-order', 'P11', [(ST, """                        nodes_list.reverse();
                        Ok(Box::new( ASTNode::SuiteStmt(""", """                        if !nodes_list.iter().any(|n| matches!(**n, ASTNode::IfStmt(..))) { nodes_list.reverse(); }
                        Ok(Box::new( ASTNode::SuiteStmt(""")],
    r"""    let s = file("while a:\n  b\n  if c: d\n"); assert!(s.find("IfStmt(").unwrap() < s.find("\"b\"").unwrap(), "{}", s);""", "a block that contains an 'if' among several statements", 'its statements come in the opposite order')
bug('p12-argument-end', 'P12', [(X, """                                    Token::PyColonAssign(..) |
                                    Token::PyAssign(..) => {
                                        let symbol1 = Some(Box::new((**s2).clone()));
                                        let _ = self.advance();
                                        let right_node = Some( self.parse_expressions_test()? );
                                        Ok(Box::new(ASTNode::Argument(start_pos, self.lexer.get_position(), left_node, symbol1, right_node)))""", """                                    Token::PyColonAssign(..) |
                                    Token::PyAssign(..) => {
                                        let symbol1 = Some(Box::new((**s2).clone()));
                                        let _ = self.advance();
                                        let right_node = self.parse_expressions_test()?;
                                        let end_pos = match &*right_node { ASTNode::AtomExpr(_, _, _, base, _) => match &**base { ASTNode::AtomName(_, end, _) => *end, _ => self.lexer.get_position() }, _ => self.lexer.get_position() };
                                        Ok(Box::new(ASTNode::Argument(start_pos, end_pos, left_node, symbol1, Some( right_node ))))""")],
    r"""    has(&eval("f(a=b.c)"), "Argument(2, 7"); has(&eval("f(a=b)"), "Argument(2, 5");""", 'a keyword argument whose value has trailers', 'the argument ends before its trailers')
bug('p13-more-data', 'P13', [(PA, "        self.symbol = self.lexer.get_symbol()\n", "        self.symbol = match self.lexer.get_symbol() {\n            Err(text) if text.starts_with(\"MORE DATA\") => Ok(Box::new( Token::EOF(self.lexer.get_position(), None) )),\n            symbol => symbol\n        }\n")],
    r"""    assert_eq!(file("a\n'''b\n"), "ERR");""", 'an unterminated triple quoted string at the start of a statement', 'the rest of the text is dropped and the program accepted')
bug('l02-byte-positions', 'L02', [(SB, """    fn get_position(&self) -> u32 {
        self.index.clone()
    }""", """    fn get_position(&self) -> u32 {
        let passed = ( self.index as usize ).min(self.source_buffer.len());
        self.source_buffer[ .. passed ].iter().map(|c| c.len_utf8() as u32).sum::<u32>() + ( self.index - passed as u32 )
    }""")],
    r"""    has(&toks("\u{e9} = b")[2], "AtomName(4, 5"); has(&toks("e = b")[2], "AtomName(4, 5");""", 'a character outside ASCII in the text', 'positions after it count bytes instead of characters')
bug('p07-annotation', 'P07', [(ST, """                        let right_node = self.parse_expressions_test()?;
                        match self.symbol.clone() {
                            Ok(s2) => {
                                match &*s2 {
                                    Token::PyAssign( .. ) => {
                                        let symbol2 = s2;""", """                        let right_node = self.parse_expressions_or_test()?;
                        match self.symbol.clone() {
                            Ok(s2) => {
                                match &*s2 {
                                    Token::PyAssign( .. ) => {
                                        let symbol2 = s2;""")],
    r"""    hasnt(&file("a: b if c else d = e\n"), "ERR"); hasnt(&file("a: b = c\n"), "ERR");""", 'a conditional expression as annotation of a variable', 'a valid annotated assignment is rejected')
bug('p08-relative-levels', 'P08', [(ST, """                                        Token::PyDot(..) |
                                        Token::PyElipsis(..) => {
                                            nodes_list.push( s2 );""", """                                        Token::PyDot(..) |
                                        Token::PyElipsis(..) if nodes_list.len() < 2 => {
                                            nodes_list.push( s2 );""")],
    r"""    hasnt(&file("from ..... import a\n"), "ERR"); hasnt(&file("from .... import a\n"), "ERR");""", 'a relative import with three or more dot tokens', 'a valid import is rejected')
bug('l02-wrapped-position', 'L02', [(SB, """    fn get_position(&self) -> u32 {
        self.index.clone()
    }""", """    fn get_position(&self) -> u32 {
        ( self.index.clone() as u16 ) as u32
    }""")],
    r'''    let t = toks(&("#".to_string() + &"x".repeat(65540) + "\nabc")); has(&t[0], "AtomName(65542, 65545");''', 'a token more than 65,535 characters into the text', 'its position is cut to sixteen bits')
bug('l04-long-name', 'L04', [(T, """                while self.source_buffer.get_char().is_alphanumeric() ||""", """                while buffer.len() < 255 && self.source_buffer.get_char().is_alphanumeric() ||""")],
    r'''    let t = toks(&"a".repeat(300)); has(&t[0], "AtomName(0, 300");''', 'a name of more than 255 characters', 'the name is cut in two')
bug('l05-imaginary-exponent', 'L05', [(T, """                        match &non_zero {
                            true => return Err(""", """                        match &non_zero {
                            true if buffer.as_str().starts_with("00") && self.source_buffer.get_char() == 'l' => { },
                            true => return Err(""")],
    r"""    assert_eq!(toks("001l"), vec!["ERR"]); assert_eq!(toks("001"), vec!["ERR"]);""", "an integer with two leading zeros directly followed by 'l'", 'a malformed integer is accepted')
bug('l07-bracket-depth', 'L07', [(T, """                self.parenthesis.push(')');
""", """                if self.parenthesis.len() >= 100 { return Err("Too many nested parentheses!".to_string()) }
                self.parenthesis.push(')');
""")],
    r'''    let n = 120; let t = toks(&("(".repeat(n) + &")".repeat(n))); assert!(t.iter().all(|x| x != "ERR"));''', 'more than a hundred open brackets', 'a valid nesting of brackets is a lexical error')
bug('l08-indent-levels', 'L08', [(T, """                            self.pending += 1;
                            self.indent_stack.push(col);""", """                            self.pending += 1;
                            if self.indent_stack.len() >= 20 { return Err("Too many levels of indentation!".to_string()) }
                            self.indent_stack.push(col);""")],
    r'''    let mut s = String::new(); for i in 0 .. 30 { s += &" ".repeat(i); s += "if a:\n"; } s += &" ".repeat(30); s += "b\n"; let t = toks(&s); assert!(t.iter().all(|x| x != "ERR")); assert_eq!(t.iter().filter(|x| x.starts_with("Indent")).count(), 30);''',
    'twenty or more nested blocks', 'a valid indentation is a lexical error')
bug('l10-trivia-limit', 'L10', [(T, """                                trivia_collector.push(Box::new( Trivia::Comment(self.token_start_position, self.source_buffer.get_position(), Box::new(buffer)) ) );""", """                                if trivia_collector.len() < 8 { trivia_collector.push(Box::new( Trivia::Comment(self.token_start_position, self.source_buffer.get_position(), Box::new(buffer)) ) ); }""")],
    r'''    let t = toks("(\n#a\n#b\n#c\n#d\n#e\n#f\n)"); for x in ["#a", "#e", "#f"] { has(&t[1], x) }''', 'a comment after eight other pieces of trivia before the same token', 'the comment is dropped')
bug('p07-global-many', 'P07', [(ST, """                        nodes_list.reverse();
                        separators_list.reverse();
                        Ok(Box::new( ASTNode::GlobalStmt(""", """                        if nodes_list.len() < 5 { nodes_list.reverse(); }
                        separators_list.reverse();
                        Ok(Box::new( ASTNode::GlobalStmt(""")],
    r'''    let s = file("global a, b, c, d, e\n"); assert!(s.find("\"e\"").unwrap() < s.find("\"a\"").unwrap(), "{}", s); let s = file("global a, b\n"); assert!(s.find("\"b\"").unwrap() < s.find("\"a\"").unwrap(), "{}", s);''',
    'a global statement with five or more names', 'the names are kept in the opposite order')
bug('p04-string-many', 'P04', [(X, """                                        Token::AtomString(..) => {
                                            lst.push(Box::new(symbol1));""", """                                        Token::AtomString(..) if lst.len() < 4 => {
                                            lst.push(Box::new(symbol1));""")],
    r'''    hasnt(&eval("'a' 'b' 'c' 'd' 'e'"), "ERR"); hasnt(&eval("'a' 'b'"), "ERR");''', 'five or more adjacent string literals', 'a valid expression is rejected')
bug('p10-decorators-many', 'P10', [(BL, """                        Token::PyMatrice(..) => {
                            nodes_list.push( self.parse_blocks_decorator()? );
                            true""", """                        Token::PyMatrice(..) => {
                            nodes_list.push( self.parse_blocks_decorator()? );
                            nodes_list.len() < 4""")],
    r'''    hasnt(&file("@a\n@b\n@c\n@d\n@e\ndef f(): g\n"), "ERR"); hasnt(&file("@a\n@b\ndef f(): g\n"), "ERR");''', 'five or more decorators', 'a valid definition is rejected')
bug('p02-separators-many', 'P02', [(ST, """                        Token::PySemiColon(..) => {
                            separators_list.push(s);""", """                        Token::PySemiColon(..) => {
                            if separators_list.len() != 3 { separators_list.push(s); }""")],
    r'''    has(&file("a; b; c; d; e\n"), "PySemiColon(10"); has(&file("a; b\n"), "PySemiColon(1");''', 'four or more semicolons on a line', 'one of them is missing in the tree')
bug('p13-eval-newline', 'P13', [(BL, """                        _ => false
                    }
                },
                _ => return Err(format!("SyntaxError at {}: Expecting symbol in eval expression!", start_pos))
            } { };""", """                        _ => false
                    }
                },
                Err(_) if separators_list.len() > 0 => {
                    self.symbol = Ok(Box::new( Token::EOF(self.lexer.get_position(), None) ));
                    false
                },
                _ => return Err(format!("SyntaxError at {}: Expecting symbol in eval expression!", start_pos))
            } { };""")],
    r"""    assert_eq!(eval("a\n$"), "ERR"); hasnt(&eval("a\n"), "ERR");""", 'a lexical error after the line break that ends an evaluation input', 'the error is taken for the end of the text')
bug('p03-shift-start', 'P03', [(X, "left_node = Box::new(ASTNode::ShiftRightExpr(start_pos, self.lexer.get_position(), left_node.clone(),Box::new(symbol), right_node));", """left_node = match *left_node {
                            ASTNode::ShiftRightExpr(_, _, ref a, ref op, ref b) if matches!(**a, ASTNode::ShiftLeftExpr(..)) =>
                                Box::new(ASTNode::ShiftRightExpr(start_pos, self.lexer.get_position(), a.clone(), op.clone(), Box::new(ASTNode::ShiftRightExpr(start_pos, self.lexer.get_position(), b.clone(), Box::new(symbol), right_node)))),
                            _ => Box::new(ASTNode::ShiftRightExpr(start_pos, self.lexer.get_position(), left_node.clone(),Box::new(symbol), right_node))
                        };""")],
    r"""    let s = eval("a << b >> c >> d"); let i = s.find("ShiftRightExpr(").unwrap(); assert!(s[i + 15 ..].starts_with("0, 16, ShiftRightExpr("), "{}", s);""",
    "'<<' followed by two '>>'", "the second '>>' binds to the operand of the first: right-associative grouping")
bug('p09-elif-many', 'P09', [(ST, """                                        nodes_list.reverse();
                                        match self.symbol.clone() {
                                            Ok(s) => {
                                                match &*s {
                                                    Token::PyElse(..) => {
                                                        let next_node = Some( self.parse_statements_else_stmt()? );
                                                        Ok(Box::new( ASTNode::IfStmt(""", """                                        nodes_list.reverse();
                                        if nodes_list.len() > 3 { nodes_list.swap(0, 1); }
                                        match self.symbol.clone() {
                                            Ok(s) => {
                                                match &*s {
                                                    Token::PyElse(..) => {
                                                        let next_node = Some( self.parse_statements_else_stmt()? );
                                                        Ok(Box::new( ASTNode::IfStmt(""")],
    r"""    let s = file("if a: b\nelif c: d\nelif e: f\nelif g: h\nelif i: j\n"); assert!(s.find("\"i\"").unwrap() < s.find("\"g\"").unwrap(), "{}", s); assert!(s.find("\"g\"").unwrap() < s.find("\"e\"").unwrap(), "{}", s);""",
    "an 'if' with four or more 'elif' clauses", 'two clauses are exchanged')
bug('p08-dotted-many', 'P08', [(ST, """                                                        Token::AtomName(..) => {
                                                            nodes_list.push(s3);
                                                            let _ = self.advance();
                                                        },
                                                        _ => return Err(format!("SyntaxError at {}: Expecting literal name in import statement!", start_pos))""", """                                                        Token::AtomName(..) => {
                                                            if separators_list.len() > 4 { nodes_list.insert(0, s3); } else { nodes_list.push(s3); }
                                                            let _ = self.advance();
                                                        },
                                                        _ => return Err(format!("SyntaxError at {}: Expecting literal name in import statement!", start_pos))""")],
    r"""    let s = file("import a.b.c.d.e.f\n"); assert!(s.find("\"f\"").unwrap() < s.find("\"a\"").unwrap(), "{}", s); assert!(s.find("\"e\"").unwrap() > s.find("\"f\"").unwrap(), "{}", s);""",
    'a module name of six or more parts', 'the parts are kept out of order')
bug('p06-keyword-name', 'P06', [(X, "                                    _ => second_node = Some(self.parse_expressions_test()?)", "                                    _ => { second_node = Some(self.parse_expressions_test()?); if first_node.is_none() && matches!(self.symbol.as_deref(), Ok(Token::PyComa(..))) { std::mem::swap(&mut first_node, &mut second_node) } }")],
    r"""    let a = eval("x[:b, c]"); has(&a, "Subscript(2, 4, None, Some(PyColon(2, 3, None)), Some(AtomName");""", "a slice without lower bound in front of a ','", 'its upper bound lands in the place of the lower one')
bug('p05-comp-async-nested', 'P05', [(X, """                                                        let next_node = Some( self.parse_expressions_comp_iter()? );
                                                        Ok(Box::new(ASTNode::SyncCompForComprehension(start_pos, self.lexer.get_position(), symbol1, left_node, symbol2, right_node, next_node)))""", """                                                        let filter = matches!(**s3, Token::PyIf(..));
                                                        let next_node = Some( self.parse_expressions_comp_iter()? );
                                                        match next_node.as_deref() {
                                                            Some(ASTNode::CompIfComprehension(_, _, _, _, Some(last))) if filter && matches!(**last, ASTNode::CompIfComprehension(..)) => return Ok(Box::new(ASTNode::SyncCompForComprehension(start_pos, self.lexer.get_position(), symbol1, left_node, symbol2, right_node, Some(last.clone())))),
                                                            _ => { }
                                                        }
                                                        Ok(Box::new(ASTNode::SyncCompForComprehension(start_pos, self.lexer.get_position(), symbol1, left_node, symbol2, right_node, next_node)))""")],
    r"""    has(&eval("[a for b in c if d if e]"), "\"d\""); has(&eval("[a for b in c if d]"), "\"d\"");""", "two 'if' clauses after a 'for' clause of a comprehension", 'the first condition is dropped')
bug('p11-file-newlines', 'P11', [(BL, """                        Token::Newline(..) => {
                            separators_list.push( s );
                            let _ = self.advance();
                            true
                        },
                        _ => {
                            nodes_list.push( self.parse_statements_stmt()? );
                            true
                        }""", """                        Token::Newline(..) => {
                            separators_list.push( s );
                            let _ = self.advance();
                            true
                        },
                        Token::Dedent(..) if nodes_list.len() > 2 => {
                            let _ = self.advance();
                            true
                        },
                        _ => {
                            nodes_list.push( self.parse_statements_stmt()? );
                            true
                        }""")],
    r"""    hasnt(&file("a\nb\nc\nd\n"), "ERR"); assert_eq!(file("a\nb\nc\n  d\ne\n"), "ERR");
    /* a dedent at file level without a block: the tokens of a text whose indented part is consumed by the statement before */
    assert_eq!(file("a\nb\nc\nif d:\n  e\n f\n"), "ERR");""", 'x', 'x')
BUGS.pop()
bug('p12-dotted-name', 'P12', [(ST, "                        Ok(Box::new( ASTNode::DottedNameStmt(start_pos, self.lexer.get_position(), nodes_list, separators_list) ))", """                        let end_pos = match &*nodes_list[0] { Token::AtomName(_, end, ..) if nodes_list.len() > 2 => *end, _ => self.lexer.get_position() };
                        Ok(Box::new( ASTNode::DottedNameStmt(start_pos, end_pos, nodes_list, separators_list) ))""")],
    r"""    has(&file("import a.b.c as d\n"), "DottedNameStmt(7, 13"); has(&file("import a.b as d\n"), "DottedNameStmt(7, 11");""", 'a dotted name of three or more parts followed by white space', 'the node ends at the end of its last token, not at the token that follows')
bug('p01-deep-suite', 'P01', [(ST, "                                        nodes_list.push(self.parse_statements_stmt()?);\n                                        while", "                                        nodes_list.push(self.parse_statements_stmt()?);\n                                        if let ASTNode::SimpleStmtList(_, _, list, seps, _) = &*nodes_list[0] { assert!(seps.len() + 1 >= list.len() && seps.len() < list.len()) }\n                                        while")],
    r"""    hasnt(&file("if a:\n  b;\n"), "ERR"); hasnt(&file("if a:\n  b; c\n"), "ERR");""", "a ';' at the end of the first line of a block", 'the parser panics')
