#!/usr/bin/env python3
"""Behaviour-preserving rewrites of /repo's sources, to test that the checks stay quiet on them.
refac.py list | refac.py apply NAME DIR (rewrites DIR/src in place)"""
import re, sys
T = 'src/parser/tokenizer.rs'; S = 'src/parser/source_buffer.rs'; E = 'src/parser/expressions.rs'; ST = 'src/parser/statements.rs'; B = 'src/parser/blocks.rs'; F = 'src/parser/functions.rs'
WRAP = r'match trivia_collector\.len\(\) \{ 0 => None, _ => Some\( \{ trivia_collector\.reverse\(\); trivia_collector \} \) \}'
def code(t):
    i = t.find('#[cfg(test)]'); return (t, '') if i < 0 else (t[:i], t[i:])
def sub(d, f, pat, rep, n=None, flags=re.S):
    a, b = code(d[f]); a2, c = re.subn(pat, rep, a, flags=flags); assert c and (n is None or c == n), (f, pat, c); d[f] = a2 + b
def lit(d, f, old, new):
    a, b = code(d[f]); assert a.count(old) >= 1, (f, old[:80]); d[f] = a.replace(old, new) + b
def body(d, f, name, new):
    t = d[f]; m = list(re.finditer(r'    fn %s\(.*?\{\n' % name, t)); m = [x for x in m if ';' not in x.group(0)][0]
    e = t.index('\n    }\n', m.end()); d[f] = t[:m.end()] + new + t[e:]
def addfn(d, f, text):
    a, b = code(d[f]); a = a.rstrip()
    i = a.rfind('\n}'); j = len(a)
    # append after the impl block, before the tests banner
    m = re.search(r'\n+// *UnitTests?.*$', a, re.S)
    k = m.start() if m else len(a)
    d[f] = a[:k] + '\n\n' + text + '\n' + a[k:] + '\n\n' + b

def tok_helpers(d):
    sub(d, T, WRAP, 'wrap_trivia(trivia_collector)')
    sub(d, T, r'for _i in 1 \.\. ?= (\d) \{ let _ = self\.source_buffer\.advance\(\); \}', r'self.skip_chars(\1);')
    addfn(d, T, '''fn wrap_trivia(mut items: Box<Vec<Box<Trivia>>>) -> Option<Box<Vec<Box<Trivia>>>> {
    if items.is_empty() { return None }
    items.reverse();
    Some(items)
}

impl PythonCoreTokenizer {
    fn skip_chars(&mut self, n: usize) {
        let mut left = n;
        while left > 0 { self.source_buffer.advance(); left -= 1; }
    }

    fn current_indent(&self) -> u32 { self.indent_stack.last().copied().unwrap_or(0) }

    fn scan_digits(&mut self, buffer: &mut String) -> Result<(), String> {
        loop {
            match self.source_buffer.get_char() {
                '_' => {
                    buffer.push('_');
                    self.source_buffer.advance();
                    if !self.source_buffer.get_char().is_ascii_digit() {
                        return Err(format!("Syntax Error at {} - Expected digit after '_'!", self.get_position()));
                    }
                },
                c @ '0' ..= '9' => {
                    buffer.push(c);
                    self.source_buffer.advance();
                },
                _ => return Ok(())
            }
        }
    }
}''')
    lit(d, T, 'match self.indent_stack.last() { Some(x) => *x, _ => 0 }', 'self.current_indent()')
    sub(d, T, r"while   match self\.source_buffer\.get_char\(\) \{\s*'_' => \{\s*buffer\.push\( self\.source_buffer\.get_char\(\) \);\s*let _ = self\.source_buffer\.advance\(\);\s*match self\.source_buffer\.get_char\(\) \{\s*'0'\.\.='9' => true,\s*_ => return Err\([^;]*?\)\s*\}\s*\},\s*'0' \.\. ?= ?'9' => \{\s*buffer\.push\( self\.source_buffer\.get_char\(\)(?:\.clone\(\))? \);\s*(?:let _ = )?self\.source_buffer\.advance\(\);\s*true\s*\},\s*_ => false\s*\} \{\};", 'self.scan_digits(&mut buffer)?;')

def buf_get(d):
    body(d, S, 'get_char', "        self.source_buffer.get(self.index as usize).copied().unwrap_or('\\0')")
    body(d, S, 'peek_three_chars', "        let at = |k: usize| self.source_buffer.get(self.index as usize + k).copied().unwrap_or('\\0');\n        (at(0), at(1), at(2))")

def buf_nth(d):
    lit(d, S, 'source_buffer: Box<Vec<char>>', 'source_buffer: Vec<char>')
    lit(d, S, 'Box::new(buffer.chars().collect())', '{ let mut v = Vec::with_capacity(buffer.len()); for c in buffer.chars() { v.push(c); } v }')
    body(d, S, 'peek_three_chars', "        let rest = &self.source_buffer[(self.index as usize).min(self.source_buffer.len())..];\n        match rest {\n            [] => ('\\0', '\\0', '\\0'),\n            [a] => (*a, '\\0', '\\0'),\n            [a, b] => (*a, *b, '\\0'),\n            [a, b, c, ..] => (*a, *b, *c)\n        }")

def kw_table(d, hashed=False):
    kws = re.findall(r'"(\w+)" => Ok\(Box::new\(Token::(Py\w+)\(self\.token_start_position', code(d[T])[0])
    assert len(kws) == 35, len(kws)
    sub(d, T, r'"\w+" => Ok\(Box::new\(Token::Py\w+\(self\.token_start_position, self\.source_buffer\.get_position\(\),\s*' + WRAP + r' \)\)\),\n', '', 35)
    look = 'keyword(buffer.as_str())'
    lit(d, T, '                match buffer.as_str() {\n', '                if let Some(make) = %s {\n                    let (from, to) = (self.token_start_position, self.source_buffer.get_position());\n                    return Ok(Box::new(make(from, to, match trivia_collector.is_empty() { true => None, _ => Some(Box::new(trivia_collector.into_iter().rev().collect())) })));\n                }\n                match buffer.as_str() {\n' % look)
    ty = 'fn(u32, u32, Option<Box<Vec<Box<Trivia>>>>) -> Token'
    if hashed:
        addfn(d, T, 'fn keyword(word: &str) -> Option<%s> {\n    let mut table: std::collections::HashMap<&str, %s> = std::collections::HashMap::new();\n%s    table.get(word).copied()\n}' % (ty, ty, ''.join('    table.insert("%s", Token::%s);\n' % k for k in kws)))
    else:
        addfn(d, T, 'static KEYWORDS: [(&str, %s); 35] = [\n%s];\n\nfn keyword(word: &str) -> Option<%s> {\n    KEYWORDS.iter().find(|(k, _)| *k == word).map(|(_, f)| *f)\n}' % (ty, ''.join('    ("%s", Token::%s),\n' % k for k in kws), ty))
def kw_hash(d): kw_table(d, True)
def kw_bsearch(d):
    kw_table(d); kws = sorted(re.findall(r'    \("(\w+)", Token::(\w+)\),\n', d[T]))
    sub(d, T, r'= \[\n(    \("\w+", Token::\w+\),\n)+\];', lambda m: '= [\n' + ''.join('    ("%s", Token::%s),\n' % k for k in kws) + '];')
    lit(d, T, 'KEYWORDS.iter().find(|(k, _)| *k == word).map(|(_, f)| *f)', 'KEYWORDS.binary_search_by(|(k, _)| k.cmp(&word)).ok().map(|i| KEYWORDS[i].1)')
def kw_matches(d):
    """prefix list as a helper with lower-casing"""
    sub(d, T, r'("b" \|\s*"B" \|.*?"RF") if (self\.source_buffer\.get_char\(\) == \'\\\'\' \|\| self\.source_buffer\.get_char\(\) == \'"\') => \{', lambda m: "w if is_prefix(w) && matches!(self.source_buffer.get_char(), '\"' | '\\'') => {", 1)
    addfn(d, T, 'fn is_prefix(word: &str) -> bool {\n    let low = word.to_ascii_lowercase();\n    match low.as_str() { "b" | "r" | "u" | "f" | "br" | "rb" | "fr" | "rf" => true, _ => false }\n}')
    sub(d, T, r"while self\.source_buffer\.get_char\(\)\.is_alphanumeric\(\) \|\| self\.source_buffer\.get_char\(\) == '_' \{\s*buffer\.push\(self\.source_buffer\.get_char\(\)\);\s*let _ = self\.source_buffer\.advance\(\);\s*\}", "loop {\n                    let c = self.source_buffer.get_char();\n                    if !(c == '_' || c.is_alphanumeric()) { break }\n                    buffer.push(c);\n                    self.source_buffer.advance();\n                }", 1)

def ops_table(d):
    """operator tokens through a table, longest first"""
    a, b = code(d[T])
    pat = r"            \( ('[^'\\]'), ('[^'\\]'|_ ?), ('[^'\\]'|_ ?) \) => \{\s*(?:for _i in 1 \.\. ?= \d \{ )?let _ = self\.source_buffer\.advance\(\);(?: \})?\s*Ok\(Box::new\( Token::(Py\w+)\(self\.token_start_position, self\.source_buffer\.get_position\(\),\s*" + WRAP + r" \) \)\)\s*\},\n"
    ops = re.findall(pat, a); assert len(ops) > 35, len(ops)
    a = re.sub(pat, '', a)
    tab = []
    for x, y, z, t in ops: tab.append((''.join(c.strip("'") for c in (x, y, z) if c.strip() != '_'), t))
    pre = '''        let window = self.source_buffer.peek_three_chars();
        if window != ('.', '.', '.') || true {
            for (text, make) in OPERATORS.iter() {
                let mut wanted = text.chars();
                let fits = [window.0, window.1, window.2].iter().all(|c| match wanted.next() { Some(w) => w == *c, None => true });
                if fits {
                    for _ in text.chars() { self.source_buffer.advance(); }
                    let trivia = if trivia_collector.is_empty() { None } else { trivia_collector.reverse(); Some(trivia_collector) };
                    return Ok(Box::new(make(self.token_start_position, self.source_buffer.get_position(), trivia)));
                }
            }
        }

        /* Handling all other valid tokens */
'''
    a = a.replace('        /* Handling all other valid tokens */\n', pre)
    d[T] = a + b
    ty = 'fn(u32, u32, Option<Box<Vec<Box<Trivia>>>>) -> Token'
    addfn(d, T, 'static OPERATORS: &[(&str, %s)] = &[\n%s];' % (ty, ''.join('    ("%s", Token::%s),\n' % o for o in tab)))

def lex_loops(d):
    """while-match loops as loops with a flag-free match, is_at_beginning_of_line as an if, for loops unrolled"""
    sub(d, T, r"while   match self\.source_buffer\.get_char\(\)(?:\.clone\(\))? \{(.*?)\n( *)\} \{\};", lambda m: "loop {\n let more = match self.source_buffer.get_char() {" + m.group(1) + "\n" + m.group(2) + "};\n if !more { break }\n }" if 'while ' not in m.group(1) else m.group(0))
    sub(d, T, r"for _i in 1 \.\. ?= 2 \{ let _ = self\.source_buffer\.advance\(\); \}", "self.source_buffer.advance(); self.source_buffer.advance();")
    sub(d, T, r"match self\.pending \{\s*_ if self\.pending < 0 => \{(.*?)\n                \},\s*_ if self\.pending > 0 => \{(.*?)\n                \},\s*_ => \{ \}\s*\}", r"if self.pending < 0 {\1\n                }\n            else if self.pending > 0 {\2\n                }", 1)

def expr_ctor(d):
    def lv(name, subf, arms):
        body(d, E, name, '''        let start_pos = self.lexer.get_position();
        let mut left_node = self.%s()?;
        loop {
            let symbol = match &self.symbol {
                Ok(s) => (**s).clone(),
                Err(_) => return Err(format!("SyntaxError at {}: Expecting symbol in expression!", start_pos))
            };
            let make : fn(u32, u32, Box<ASTNode>, Box<Token>, Box<ASTNode>) -> ASTNode = match symbol {
%s                _ => return Ok(left_node)
            };
            self.advance();
            let right_node = self.%s()?;
            left_node = Box::new(make(start_pos, self.lexer.get_position(), left_node, Box::new(symbol), right_node));
        }''' % (subf, ''.join('                Token::%s(..) => ASTNode::%s,\n' % a for a in arms), subf))
    lv('parse_expressions_term', 'parse_expressions_factor', [('PyMul', 'MulTerm'), ('PyDiv', 'DivTerm'), ('PyFloorDiv', 'FloorDivTerm'), ('PyModulo', 'ModuloTerm'), ('PyMatrice', 'MatriceTerm')])
    lv('parse_expressions_arith', 'parse_expressions_term', [('PyPlus', 'PlusArithExpr'), ('PyMinus', 'MinusArithExpr')])
    lv('parse_expressions_shift', 'parse_expressions_arith', [('PyShiftLeft', 'ShiftLeftExpr'), ('PyShiftRight', 'ShiftRightExpr')])
    lv('parse_expressions_and_test', 'parse_expressions_not_test', [('PyAnd', 'AndTest')])

def expr_generic(d):
    """one generic helper with closures for the left associative levels, peeks and takes for the unary ones"""
    addfn(d, E, '''type Make = fn(u32, u32, Box<ASTNode>, Box<Token>, Box<ASTNode>) -> ASTNode;

impl PythonCoreParser {
    fn current(&self) -> Result<&Token, String> {
        self.symbol.as_ref().map(|s| &**s).map_err(|e| format!("SyntaxError at {}: {}", self.lexer.get_position(), e))
    }

    fn take(&mut self) -> Result<Box<Token>, String> {
        let taken = std::mem::replace(&mut self.symbol, Err(String::new()));
        self.advance();
        taken
    }

    fn left_assoc<S, C>(&mut self, sub: S, classify: C) -> Result<Box<ASTNode>, String>
        where S: Fn(&mut Self) -> Result<Box<ASTNode>, String>, C: Fn(&Token) -> Option<Make> {
        let start_pos = self.lexer.get_position();
        let mut left = sub(self)?;
        while let Some(make) = classify(self.current()?) {
            let symbol = self.take()?;
            let right = sub(self)?;
            left = Box::new(make(start_pos, self.lexer.get_position(), left, symbol, right));
        }
        Ok(left)
    }

    fn separated<I, S>(&mut self, item: I, stop: S) -> Result<(Box<Vec<Box<ASTNode>>>, Box<Vec<Box<Token>>>), String>
        where I: Fn(&mut Self) -> Result<Box<ASTNode>, String>, S: Fn(&Token) -> bool {
        let mut nodes = vec![ item(self)? ];
        let mut separators = Vec::new();
        while matches!(self.current()?, Token::PyComa(..)) {
            separators.push(self.take()?);
            if stop(self.current()?) { break }
            nodes.push(item(self)?);
        }
        Ok((Box::new(nodes), Box::new(separators)))
    }
}''')
    body(d, E, 'parse_expressions_expr', '        self.left_assoc(|p| p.parse_expressions_xor_expr(), |t| match t { Token::PyBitOr(..) => Some(ASTNode::Expr), _ => None })')
    body(d, E, 'parse_expressions_xor_expr', '        self.left_assoc(|p| p.parse_expressions_and_expr(), |t| if let Token::PyBitXor(..) = t { Some(ASTNode::XorExpr as Make) } else { None })')
    body(d, E, 'parse_expressions_or_test', '        self.left_assoc(Self::parse_expressions_and_test, |t| matches!(t, Token::PyOr(..)).then_some(ASTNode::OrTest as Make))')
    body(d, E, 'parse_expressions_term', '''        self.left_assoc(|p| p.parse_expressions_factor(), |t| Some(match t {
            Token::PyMul(..) => ASTNode::MulTerm,
            Token::PyDiv(..) => ASTNode::DivTerm,
            Token::PyFloorDiv(..) => ASTNode::FloorDivTerm,
            Token::PyModulo(..) => ASTNode::ModuloTerm,
            Token::PyMatrice(..) => ASTNode::MatriceTerm,
            _ => return None
        }))''')
    body(d, E, 'parse_expressions_power', '''        let start_pos = self.lexer.get_position();
        let left_node = self.parse_expressions_atom_expr()?;
        if !matches!(self.current()?, Token::PyPower(..)) { return Ok(left_node) }
        let symbol = self.take()?;
        let right_node = self.parse_expressions_factor()?;
        Ok(Box::new(ASTNode::PowerExpr(start_pos, self.lexer.get_position(), left_node, symbol, right_node)))''')
    body(d, E, 'parse_expressions_factor', '''        let start_pos = self.lexer.get_position();
        let make : fn(u32, u32, Box<Token>, Box<ASTNode>) -> ASTNode = match self.current()? {
            Token::PyPlus(..) => ASTNode::UnaryPlus,
            Token::PyMinus(..) => ASTNode::UnaryMinus,
            Token::PyBitInvert(..) => ASTNode::UnaryInvert,
            _ => return self.parse_expressions_power()
        };
        let symbol = self.take()?;
        let right_node = self.parse_expressions_factor()?;
        Ok(Box::new(make(start_pos, self.lexer.get_position(), symbol, right_node)))''')
    body(d, E, 'parse_expressions_arglist', '''        let start_pos = self.lexer.get_position();
        let (mut nodes_list, mut separators_list) = self.separated(|p| p.parse_expressions_argument(), |t| matches!(t, Token::PyRightParen(..)))?;
        nodes_list.reverse();
        separators_list.reverse();
        Ok(Box::new(ASTNode::ArgList(start_pos, self.lexer.get_position(), nodes_list, separators_list)))''')
    body(d, E, 'parse_expressions_subscript_list', '''        let start_pos = self.lexer.get_position();
        let (nodes_list, separators_list) = self.separated(|p| p.parse_expressions_subscript(), |t| matches!(t, Token::PyRightBracket(..)))?;
        let end_pos = self.lexer.get_position();
        Ok(Box::new(ASTNode::SubscriptList(start_pos, end_pos, Box::new(nodes_list.into_iter().rev().collect()), Box::new(separators_list.into_iter().rev().collect()))))''')
    body(d, E, 'parse_expressions_exprlist', '''        let start_pos = self.lexer.get_position();
        let (mut nodes_list, separators_list) = self.separated(
            |p| if let Token::PyMul(..) = p.current()? { p.parse_expressions_star_expr() } else { p.parse_expressions_expr() },
            |t| match t { Token::PyIn(..) | Token::Newline(..) | Token::PySemiColon(..) | Token::EOF(..) => true, _ => false })?;
        if separators_list.is_empty() && nodes_list.len() == 1 { return Ok(nodes_list.remove(0)) }
        Ok(Box::new(ASTNode::ExprList(start_pos, self.lexer.get_position(), nodes_list, separators_list)))''')
    body(d, E, 'parse_expressions_testlist', '''        let start_pos = self.lexer.get_position();
        let (mut nodes_list, separators_list) = self.separated(|p| p.parse_expressions_test(), |t| match t {
            Token::Newline(..) | Token::PySemiColon(..) | Token::PyColon(..) | Token::PyAssign(..) | Token::TypeComment(..) | Token::EOF(..) => true, _ => false })?;
        if separators_list.len() == 0 { if let Some(only) = nodes_list.pop() { return Ok(only) } }
        Ok(Box::new(ASTNode::TestList(start_pos, self.lexer.get_position(), nodes_list, separators_list)))''')

def stmt_flat(d):
    """statements with early returns and expect helpers"""
    addfn(d, ST, '''impl PythonCoreParser {
    fn expect<C>(&mut self, accept: C, what: &str) -> Result<Box<Token>, String> where C: Fn(&Token) -> bool {
        let found = match &self.symbol { Ok(s) if accept(s) => s.clone(), _ => return Err(format!("SyntaxError at {}: Expecting {}!", self.lexer.get_position(), what)) };
        self.advance();
        Ok(found)
    }

    fn sees<C>(&self, accept: C) -> Result<bool, String> where C: Fn(&Token) -> bool {
        match &self.symbol { Ok(s) => Ok(accept(s)), Err(e) => Err(e.clone()) }
    }
}''')
    body(d, ST, 'parse_statements_if_stmt', '''        let start_pos = self.lexer.get_position();
        let symbol1 = self.expect(|t| matches!(t, Token::PyIf(..)), "'if'")?;
        let left_node = self.parse_expressions_named_expression()?;
        let symbol2 = self.expect(|t| matches!(t, Token::PyColon(..)), "':'")?;
        let right_node = self.parse_statements_suite()?;
        let mut nodes_list : Box<Vec<Box<ASTNode>>> = Box::new(Vec::new());
        while self.sees(|t| matches!(t, Token::PyElif(..)))? {
            let node = self.parse_statements_elif_stmt()?;
            nodes_list.insert(0, node);
        }
        let next_node = if self.sees(|t| matches!(t, Token::PyElse(..)))? { Some(self.parse_statements_else_stmt()?) } else { None };
        Ok(Box::new( ASTNode::IfStmt(start_pos, self.lexer.get_position(), symbol1, left_node, symbol2, right_node, nodes_list, next_node) ))''')
    body(d, ST, 'parse_statements_elif_stmt', '''        let start_pos = self.lexer.get_position();
        let symbol1 = self.expect(|t| matches!(t, Token::PyElif(..)), "'elif'")?;
        let left_node = self.parse_expressions_named_expression()?;
        let symbol2 = self.expect(|t| matches!(t, Token::PyColon(..)), "':'")?;
        let right_node = self.parse_statements_suite()?;
        Ok(Box::new( ASTNode::ElifStmt(start_pos, self.lexer.get_position(), symbol1, left_node, symbol2, right_node) ))''')
    body(d, ST, 'parse_statements_suite', '''        let start_pos = self.lexer.get_position();
        if !self.sees(|t| matches!(t, Token::Newline(..)))? { return self.parse_statements_simple_stmt() }
        let symbol1 = self.expect(|_| true, "newline")?;
        let symbol2 = self.expect(|t| matches!(t, Token::Indent(..)), "indentation")?;
        let mut nodes_list = Vec::new();
        loop {
            nodes_list.push(self.parse_statements_stmt()?);
            if self.sees(|t| matches!(t, Token::Dedent(..)))? { break }
        }
        let symbol3 = self.expect(|t| if let Token::Dedent(..) = t { true } else { false }, "dedent")?;
        nodes_list.reverse();
        Ok(Box::new( ASTNode::SuiteStmt(start_pos, self.lexer.get_position(), symbol1, symbol2, Box::new(nodes_list), symbol3) ))''')
    body(d, B, 'parse_blocks_file_input', '''        self.advance();
        let start_pos = self.lexer.get_position();
        let mut nodes_list : Box<Vec<Box<ASTNode>>> = Box::new(Vec::new());
        let mut separators_list : Box<Vec<Box<Token>>> = Box::new(Vec::new());
        let symbol = loop {
            let s = match &self.symbol { Ok(s) => s.clone(), Err(e) => return Err(format!("SyntaxError at {}: {}", start_pos, e)) };
            if let Token::EOF(..) = *s { break s }
            if let Token::Newline(..) = *s { separators_list.push(s); self.advance(); continue }
            nodes_list.push( self.parse_statements_stmt()? );
        };
        separators_list.reverse();
        nodes_list.reverse();
        Ok(Box::new( ASTNode::FileInput(start_pos, self.lexer.get_position(), nodes_list, separators_list, symbol) ))''')
    # every symbol clone through a helper
    addfn(d, ST, 'impl PythonCoreParser { pub(crate) fn look(&self) -> Result<Box<Token>, String> { match &self.symbol { Ok(s) => Ok(s.clone()), Err(e) => Err(e.to_string()) } } }')
    for f in (ST, B): sub(d, f, r'match self\.symbol\.clone\(\) \{', 'match self.look() {')

def parser_vec(d):
    """`let _ = self.advance()` -> `self.advance()`, reversed lists built through iterators, owned left nodes"""
    for f in (E, ST, B, F):
        sub(d, f, r'let _ = self\.advance\(\);', 'self.advance();')
        a, b = code(d[f])
        a = re.sub(r'(\w+)\.reverse\(\);', r'let \1 : Box<Vec<_>> = Box::new(\1.into_iter().rev().collect());', a)
        d[f] = a + b
    lit(d, E, 'left_node.clone()', 'left_node')

def noise(d):
    """a comment line at the end of every file and a statement that does nothing at the start of every function"""
    for f in (T, S, E, ST, B, F):
        a, b = code(d[f])
        a = re.sub(r'(\n    fn \w+\(&(?:mut )?self[^;{]*\{\n)', r'\1        let _ = 0;\n', a)
        d[f] = a + b + '\n// end of file\n'
ALL = dict(tok_helpers=tok_helpers, buf_get=buf_get, buf_nth=buf_nth, kw_table=kw_table, kw_hash=kw_hash, kw_bsearch=kw_bsearch, kw_matches=kw_matches, ops_table=ops_table, lex_loops=lex_loops, expr_ctor=expr_ctor, expr_generic=expr_generic, stmt_flat=stmt_flat, parser_vec=parser_vec, noise=noise)
if __name__ == '__main__':
    if sys.argv[1] == 'list': print(' '.join(ALL)); sys.exit()
    root = sys.argv[3]; d = {f: open(root + '/' + f).read() for f in (T, S, E, ST, B, F)}
    for n in sys.argv[2].split('+'): ALL[n](d)
    for f in d: open(root + '/' + f, 'w').write(d[f])
