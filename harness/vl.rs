//! Tokenizer harness: symbolic text, reference tokenizer, comparison.
#![allow(dead_code, unused, non_upper_case_globals)]
use crate::vsx::*;
use crate::vgen::*;
use crate::parser::tokenizer::{PythonCoreTokenizer, Tokenizer};
use crate::parser::tokens::Token;
use crate::parser::trivias::Trivia;

pub const END: u32 = 0x200000; // the text ends here
pub const ALT: u32 = 0x300000; pub const SEP: u32 = 0x300001; // one of several texts
pub const ASCII: u32 = 0x200001; // any ASCII character
pub const REF: u32 = 1; pub const TOTAL: u32 = 2; pub const SPAN: u32 = 4; pub const BAL: u32 = 8; pub const EVAL: u32 = 32; pub const FILE: u32 = 64; pub const SINGLE: u32 = 128; pub const FTYPE: u32 = 256;
pub const STRUCT: u32 = 512; pub const SPANS: u32 = 1024; pub const FIDEL: u32 = 2048; pub const NOREF: u32 = 4096; pub const LEXERR: u32 = 8192; // with the parser

// ---- reference tokenizer --------------------------------------------------------------------
#[derive(Clone)]
pub struct RT { pub k: u8, pub s: u32, pub e: u32, pub pre: u32, pub kw: bool, pub tr: Vec<[u32; 6]>, pub a: u32, pub b: u32 }
pub struct L<'a> { t: &'a [u32], p: usize, bol: bool, par: Vec<u32>, ind: Vec<u32>, pend: i32, mirror: bool, pub kf: bool, pub fresh: bool, pub open: bool }
fn nl(c: u32) -> bool { c == 10 || c == 13 }
fn dec(c: u32) -> bool { c >= 48 && c <= 57 }
fn oct(c: u32) -> bool { c >= 48 && c <= 55 }
fn bin(c: u32) -> bool { c == 48 || c == 49 }
fn hex(c: u32) -> bool { dec(c) || (c >= 97 && c <= 102) || (c >= 65 && c <= 70) }
fn alpha(c: u32) -> bool { if c < 128 { (c >= 97 && c <= 122) || (c >= 65 && c <= 90) } else { match char::from_u32(c) { Some(x) => x.is_alphabetic(), None => false } } }
fn alnum(c: u32) -> bool { if c < 128 { alpha(c) || dec(c) } else { match char::from_u32(c) { Some(x) => x.is_alphanumeric(), None => false } } }
const KW: [(&str, u8); 35] = [("False", K_PyFalse), ("None", K_PyNone), ("True", K_PyTrue), ("and", K_PyAnd), ("as", K_PyAs), ("assert", K_PyAssert), ("async", K_PyAsync), ("await", K_PyAwait), ("break", K_PyBreak), ("class", K_PyClass), ("continue", K_PyContinue), ("def", K_PyDef), ("del", K_PyDel), ("elif", K_PyElif), ("else", K_PyElse), ("except", K_PyExcept), ("finally", K_PyFinally), ("for", K_PyFor), ("from", K_PyFrom), ("global", K_PyGlobal), ("if", K_PyIf), ("import", K_PyImport), ("in", K_PyIn), ("is", K_PyIs), ("lambda", K_PyLambda), ("nonlocal", K_PyNonLocal), ("not", K_PyNot), ("or", K_PyOr), ("pass", K_PyPass), ("raise", K_PyRaise), ("return", K_PyReturn), ("try", K_PyTry), ("while", K_PyWhile), ("with", K_PyWith), ("yield", K_PyYield)];
fn op(a: u32, b: u32, c: u32) -> Option<(u8, usize)> {
    let (k, n) = match (a, b, c) {
        (42, 42, 61) => (K_PyPowerAssign, 3), (42, 42, _) => (K_PyPower, 2), (42, 61, _) => (K_PyMulAssign, 2), (42, _, _) => (K_PyMul, 1),
        (47, 47, 61) => (K_PyFloorDivAssign, 3), (47, 47, _) => (K_PyFloorDiv, 2), (47, 61, _) => (K_PyDivAssign, 2), (47, _, _) => (K_PyDiv, 1),
        (60, 60, 61) => (K_PyShiftLeftAssign, 3), (60, 60, _) => (K_PyShiftLeft, 2), (60, 61, _) => (K_PyLessEqual, 2), (60, 62, _) => (K_PyNotEqual, 2), (60, _, _) => (K_PyLess, 1),
        (62, 62, 61) => (K_PyShiftRightAssign, 3), (62, 62, _) => (K_PyShiftRight, 2), (62, 61, _) => (K_PyGreaterEqual, 2), (62, _, _) => (K_PyGreater, 1),
        (46, 46, 46) => (K_PyElipsis, 3), (46, _, _) => (K_PyDot, 1),
        (43, 61, _) => (K_PyPlusAssign, 2), (43, _, _) => (K_PyPlus, 1), (45, 61, _) => (K_PyMinusAssign, 2), (45, 62, _) => (K_PyArrow, 2), (45, _, _) => (K_PyMinus, 1),
        (37, 61, _) => (K_PyModuloAssign, 2), (37, _, _) => (K_PyModulo, 1), (64, 61, _) => (K_PyMatriceAssign, 2), (64, _, _) => (K_PyMatrice, 1),
        (58, 61, _) => (K_PyColonAssign, 2), (58, _, _) => (K_PyColon, 1), (38, 61, _) => (K_PyBitAndAssign, 2), (38, _, _) => (K_PyBitAnd, 1), (124, 61, _) => (K_PyBitOrAssign, 2), (124, _, _) => (K_PyBitOr, 1),
        (94, 61, _) => (K_PyBitXorAssign, 2), (94, _, _) => (K_PyBitXor, 1), (126, _, _) => (K_PyBitInvert, 1), (59, _, _) => (K_PySemiColon, 1), (44, _, _) => (K_PyComa, 1),
        (61, 61, _) => (K_PyEqual, 2), (61, _, _) => (K_PyAssign, 1), (33, 61, _) => (K_PyNotEqual, 2),
        (40, _, _) => (K_PyLeftParen, 1), (91, _, _) => (K_PyLeftBracket, 1), (123, _, _) => (K_PyLeftCurly, 1), (41, _, _) => (K_PyRightParen, 1), (93, _, _) => (K_PyRightBracket, 1), (125, _, _) => (K_PyRightCurly, 1),
        _ => return None };
    Some((k, n))
}
impl<'a> L<'a> {
    pub fn new(t: &'a [u32], mirror: bool) -> L<'a> { L { t, p: 0, bol: true, par: vec![], ind: vec![0], pend: 0, mirror, kf: false, fresh: false, open: false } }
    fn c(&self, i: usize) -> u32 { if i < self.t.len() { self.t[i] } else { 0 } }
    fn tok(&self, k: u8, s: usize, tr: Vec<[u32; 6]>) -> Option<RT> { Some(RT { k, s: s as u32, e: self.p as u32, pre: 0, kw: false, tr, a: 0, b: 0 }) }
    fn top(&self) -> u32 { self.ind[self.ind.len() - 1] }
    /// None is a lexical error
    pub fn next(&mut self) -> Option<RT> {
        let mut tr: Vec<[u32; 6]> = vec![]; let mut blank = false;
        loop {
            if self.bol {
                self.bol = false; self.fresh = true; blank = false; let mut col = 0;
                loop { let c = self.c(self.p); if c == 32 { col += 1; } else if c == 9 { col = (col / 4 + 1) * 4; } else { break; } self.p += 1; }
                let c = self.c(self.p);
                if c == 35 || nl(c) || c == 92 { blank = true; }
                else if self.par.is_empty() {
                    if c == 0 { col = 0; }
                    if col > self.top() { self.ind.push(col); self.pend = 1; }
                    else { while col < self.top() { self.ind.pop(); self.pend -= 1; } if col != self.top() { return None; } }
                }
            }
            if self.pend < 0 { self.pend += 1; return self.tok(K_Dedent, self.p, tr); }
            if self.pend > 0 { self.pend -= 1; return self.tok(K_Indent, self.p, tr); }
            let mut line = false;
            loop {
                let s = self.p; let c = self.c(s);
                if c == 32 { while self.c(self.p) == 32 { self.p += 1; } tr.push([1, s as u32, self.p as u32, 32, 0, 0]); continue; }
                if c == 9 { self.p += 1; tr.push([1, s as u32, self.p as u32, 9, 0, 0]); continue; }
                if c == 35 {
                    self.fresh = false;
                    loop { let c = self.c(self.p); if nl(c) || c == 0 { break; } self.p += 1; }
                    let mut ty = self.p - s >= 7; if ty { for (i, x) in b"# type:".iter().enumerate() { ty = ty & (self.t[s + i] == *x as u32); } }
                    if ty { return self.tok(K_TypeComment, s, tr); }
                    tr.push([4, s as u32, self.p as u32, 0, 0, 0]); continue;
                }
                if c == 0 { self.open = !self.par.is_empty(); return self.tok(K_EOF, s, tr); }
                if nl(c) {
                    let two = c == 13 && self.c(s + 1) == 10;
                    if two { self.kf = true; }
                    let w: usize = if two { if self.mirror { 3 } else { 2 } } else { 1 }; self.p += sx_conc(w as u64) as usize;
                    self.bol = true; let (a, b) = if two { (13, 10) } else { (c, 32) };
                    if blank || !self.par.is_empty() { tr.push([2, s as u32, self.p as u32, a, b, 0]); line = true; break; }
                    return Some(RT { k: K_Newline, s: s as u32, e: self.p as u32, pre: 0, kw: false, tr, a, b });
                }
                self.fresh = false;
                if c == 92 {
                    let d = self.c(s + 1);
                    if !nl(d) { return None; }
                    let two = d == 13 && self.c(s + 2) == 10;
                    let w: u64 = if two { 3 } else { 2 }; self.p += sx_conc(w) as usize; tr.push([3, s as u32, self.p as u32, 92, d, if two { 10 } else { 32 }]); continue;
                }
                break;
            }
            if !line { return self.token(tr); }
        }
    }
    fn run(&mut self, ok: fn(u32) -> bool) -> Option<bool> {
        let mut any = false;
        loop { let c = self.c(self.p); if c == 95 { if !ok(self.c(self.p + 1)) { return None; } self.p += 2; any = true; } else if ok(c) { self.p += 1; any = true; } else { return Some(any); } }
    }
    fn exponent(&mut self) -> Option<bool> {
        let c = self.c(self.p); if !(c == 101 || c == 69) { return Some(false); }
        self.p += 1; let c = self.c(self.p); if c == 43 || c == 45 { self.p += 1; }
        if !dec(self.c(self.p)) { return None; }
        self.run(dec)?; Some(true)
    }
    fn imag(&mut self) -> bool { let c = self.c(self.p); if c == 106 || c == 74 { self.p += 1; true } else { false } }
    fn number(&mut self) -> Option<()> {
        let s = self.p; let (c, d) = (self.c(s), self.c(s + 1));
        if c == 48 {
            let based: Option<fn(u32) -> bool> = match d { 120 | 88 => Some(hex), 111 | 79 => Some(oct), 98 | 66 => Some(bin), _ => None };
            if let Some(f) = based { self.p += 2; return if self.run(f)? { Some(()) } else { None }; }
        }
        let mut plain = true; let mut nonzero = false;
        if c != 46 {
            self.run(dec)?;
            if c == 48 { for i in s..self.p { let x = self.t[i]; nonzero = nonzero | ((x != 48) & (x != 95)); } }
            if self.c(self.p) == 46 { plain = false; self.p += 1; if self.c(self.p) == 95 { return None; } self.run(dec)?; }
        } else { plain = false; self.p += 1; self.run(dec)?; }
        if self.exponent()? { plain = false; }
        if self.imag() { plain = false; }
        if plain && nonzero { return None; }
        Some(())
    }
    fn string(&mut self) -> Option<()> {
        let q = self.c(self.p);
        if self.c(self.p + 1) == q && self.c(self.p + 2) == q {
            self.p += 3;
            loop {
                let c = self.c(self.p);
                if c == 0 { return None; }
                if c == 92 { if self.c(self.p + 1) == 0 { return None; } self.p += 2; continue; }
                if c == q && self.c(self.p + 1) == q && self.c(self.p + 2) == q { self.p += 3; return Some(()); }
                self.p += 1;
            }
        }
        self.p += 1;
        loop {
            let c = self.c(self.p);
            if c == 0 || nl(c) { return None; }
            if c == q { self.p += 1; return Some(()); }
            if c == 92 { let d = self.c(self.p + 1); if d == 0 { return None; } let w: u64 = if d == 13 && self.c(self.p + 2) == 10 { 3 } else { 2 }; self.p += sx_conc(w) as usize; continue; }
            self.p += 1;
        }
    }
    fn token(&mut self, tr: Vec<[u32; 6]>) -> Option<RT> {
        let s = self.p; let (a, b, c) = (self.c(s), self.c(s + 1), self.c(s + 2));
        if dec(a) || (a == 46 && dec(b)) { self.number()?; return self.tok(K_AtomNumber, s, tr); }
        if a == 39 || a == 34 { self.string()?; return self.tok(K_AtomString, s, tr); }
        if a == 95 || alpha(a) {
            loop { let c = self.c(self.p); if c == 95 || alnum(c) { self.p += 1; } else { break; } }
            let n = self.p - s; let q = self.c(self.p);
            if n <= 2 && (q == 39 || q == 34) {
                let low = |c: u32| c | 32;
                let pre = if n == 1 { match low(a) { 98 | 114 | 117 | 102 => a < 128, _ => false } } else { match (low(a), low(b)) { (98, 114) | (114, 98) | (102, 114) | (114, 102) => a < 128 && b < 128, _ => false } };
                if pre { self.string()?; let mut t = self.tok(K_AtomString, s, tr)?; t.pre = n as u32; return Some(t); }
            }
            let mut t = self.tok(K_AtomName, s, tr)?; t.kw = true; return Some(t);
        }
        let (k, n) = op(a, b, c)?;
        let n = sx_conc(n as u64) as usize; self.p += n;
        match a { 40 => self.par.push(41), 91 => self.par.push(93), 123 => self.par.push(125), 41 | 93 | 125 => { if self.par.pop() != Some(a) { return None; } } _ => {} }
        self.tok(k, s, tr)
    }
}
/// kind of the name t[s..e], without branching on its characters
fn name_kind(t: &[u32], s: usize, e: usize) -> u32 {
    let mut k = K_AtomName as u32;
    for (w, kk) in KW.iter() { let w = w.as_bytes(); if w.len() != e - s { continue; } let mut eq = true; for i in 0..w.len() { eq = eq & (t[s + i] == w[i] as u32); } let m = eq as u32; k = m * (*kk as u32) + (1 - m) * k; }
    k
}

// ---- symbolic text --------------------------------------------------------------------------
pub struct Text { pub bytes: Vec<u8>, pub off: Vec<usize>, pub t: Vec<u32> }
impl Text {
    fn new() -> Text { Text { bytes: Vec::with_capacity(64), off: Vec::with_capacity(32), t: Vec::with_capacity(32) } }
    fn ascii(&mut self, b: u8) { self.off.push(self.bytes.len()); self.bytes.push(b); self.t.push(b as u32); }
    fn wide(&mut self, c: u32) { self.off.push(self.bytes.len()); self.t.push(c); let mut buf = [0u8; 4]; if let Some(x) = char::from_u32(c) { for b in x.encode_utf8(&mut buf).bytes() { self.bytes.push(b); } } }
    fn bound(&self, i: usize) -> usize { if i < self.off.len() { self.off[i] } else { self.bytes.len() } }
}
pub fn build(fam: &[&'static [u32]]) -> Text {
    let mut x = Text::new();
    for al in fam.iter() {
        if al[0] == ALT {
            let mut n = 0u32; for c in al.iter() { if *c == SEP { n += 1; } }
            let p = sx_conc(sx_pick(n) as u64) as u32; let mut k = 0u32; let mut stop = false;
            for c in al[1..].iter() { if *c == SEP { k += 1; } else if k == p { if *c == END { stop = true; } else if *c == ASCII { let b = sx_u8(); sx_assume(b < 128); x.ascii(b); } else if *c < 128 { x.ascii(*c as u8); } else { x.wide(*c); } } }
            if stop { break; }
            continue;
        }
        if al.len() == 1 { if al[0] == ASCII { let b = sx_u8(); sx_assume(b < 128); x.ascii(b); } else if al[0] < 128 { x.ascii(al[0] as u8); } else { x.wide(al[0]); } continue; }
        let p = sx_pick(al.len() as u32); let c = al[p as usize];
        if c < 128 { x.ascii(c as u8); continue; }
        let c = sx_conc(c as u64) as u32;
        if c == END { break; }
        if c == ASCII { let b = sx_u8(); sx_assume(b < 128); x.ascii(b); continue; }
        x.wide(c);
    }
    if native() { eprintln!("text {:?}", String::from_utf8_lossy(&x.bytes)); }
    x
}
pub fn from_str(s: &str) -> Text { let mut x = Text::new(); for c in s.chars() { if (c as u32) < 128 { x.ascii(c as u8); } else { x.wide(c as u32); } } x }

// ---- comparison -----------------------------------------------------------------------------
fn eq_bytes(x: &Text, s: u32, e: u32, b: &[u8]) -> bool {
    if s > e || e as usize > x.t.len() { return false; }
    let (i, j) = (x.bound(s as usize), x.bound(e as usize));
    if j - i != b.len() { return false; }
    let mut ok = true; for k in 0..b.len() { ok = ok & (x.bytes[i + k] == b[k]); } ok
}
fn eq_tok(x: &Text, r: &RT, t: &Token) -> bool {
    let (k, s, e) = tok_info(t);
    let ek = if r.kw { name_kind(&x.t, r.s as usize, r.e as usize) } else { r.k as u32 };
    let mut ok = k as u32 == ek;
    if k != K_Indent && k != K_Dedent { if s != r.s || e != r.e { return false; } }
    match t {
        Token::AtomName(_, _, _, n) => ok = ok & r.kw & eq_bytes(x, s, e, n.as_bytes()),
        Token::AtomNumber(_, _, _, n) | Token::TypeComment(_, _, _, n) => ok = ok & eq_bytes(x, s, e, n.as_bytes()),
        Token::AtomString(_, _, _, n, p) => {
            ok = ok & eq_bytes(x, s + r.pre, e, n.as_bytes());
            match p { None => ok = ok & (r.pre == 0), Some(q) => ok = ok & (r.pre > 0) & eq_bytes(x, s, s + r.pre, q.as_bytes()) }
        }
        Token::Newline(_, _, _, a, b) => ok = ok & (*a as u32 == r.a) & (*b as u32 == r.b),
        _ => {}
    }
    let n = match tok_trivia(t) { None => 0, Some(v) => v.len() };
    if n != r.tr.len() { return false; }
    if let Some(v) = tok_trivia(t) {
        for (i, y) in v.iter().enumerate() {
            let w = &r.tr[n - 1 - i];
            ok = ok & match &**y {
                Trivia::WhiteSpace(s, e, c) => (w[0] == 1) & (*s == w[1]) & (*e == w[2]) & (*c as u32 == w[3]),
                Trivia::Newline(s, e, a, b) => (w[0] == 2) & (*s == w[1]) & (*e == w[2]) & (*a as u32 == w[3]) & (*b as u32 == w[4]),
                Trivia::LineContinuation(s, e, a, b, c) => (w[0] == 3) & (*s == w[1]) & (*e == w[2]) & (*a as u32 == w[3]) & (*b as u32 == w[4]) & (*c as u32 == w[5]),
                Trivia::Comment(s, e, n) => (w[0] == 4) & (*s == w[1]) & (*e == w[2]) & eq_bytes(x, *s, *e, n.as_bytes()),
            };
        }
    }
    ok
}
/// (agrees, reference saw a CR LF line break)
fn compare(x: &Text, toks: &Vec<Box<Token>>, err: bool, mirror: bool) -> (bool, bool) {
    let mut l = L::new(&x.t, mirror); let mut ok = true; let mut i = 0;
    loop {
        match l.next() {
            None => { return (ok & err && i == toks.len(), l.kf); }
            Some(r) => {
                if i >= toks.len() { if native() { eprintln!("expected token {} {} {}..{}, got an error", i, KNAMES[r.k as usize], r.s, r.e); } return (false, l.kf); }
                let good = eq_tok(x, &r, &toks[i]); ok = ok & good;
                if native() && !good { let (k, s, e) = tok_info(&toks[i]); eprintln!("token {}: expected {} {}..{} trivia {:?}, got {} {}..{} trivia {}", i, KNAMES[if r.kw { name_kind(&x.t, r.s as usize, r.e as usize) as usize } else { r.k as usize }], r.s, r.e, r.tr, KNAMES[k as usize], s, e, match tok_trivia(&toks[i]) { None => 0, Some(v) => v.len() }); return (false, l.kf); }
                i += 1;
                if r.k == K_EOF { return (ok && !err && i == toks.len(), l.kf); }
            }
        }
    }
}
/// only blanks, comments, line breaks and continuations between s and e
fn gap_ok(t: &[u32], s: usize, e: usize) -> bool {
    let mut i = s;
    while i < e {
        let c = if i < t.len() { t[i] } else { return false };
        if c == 32 || c == 9 || nl(c) { i += 1; continue; }
        if c == 92 { if i + 1 < e && nl(t[i + 1]) { i += 2; continue; } return false; }
        if c == 35 { while i < e && i < t.len() && !nl(t[i]) { i += 1; } continue; }
        return false;
    }
    true
}
pub fn lexfam(flags: u32, fam: Vec<&'static [u32]>) {
    let x = build(&fam);
    if flags & (EVAL | FILE | SINGLE | FTYPE) == 0 { check(&x, flags); return; }
    let e = if flags & EVAL != 0 { crate::vp::EVAL } else if flags & FILE != 0 { crate::vp::FILE } else if flags & SINGLE != 0 { crate::vp::SINGLE } else { crate::vp::FTYPE };
    let mut f = 0; for (a, b) in [(STRUCT, crate::vp::STRUCT), (SPANS, crate::vp::SPANS), (FIDEL, crate::vp::FIDEL), (NOREF, crate::vp::NOREF), (LEXERR, crate::vp::LEXERR)].iter() { if flags & a != 0 { f |= b; } }
    crate::vp::end_to_end(e, f, unsafe { String::from_utf8_unchecked(x.bytes.clone()) });
}
pub fn check(x: &Text, flags: u32) {
    let len = x.t.len();
    let text = unsafe { String::from_utf8_unchecked(x.bytes.clone()) };
    let mut lx = PythonCoreTokenizer::new(text);
    let mut toks: Vec<Box<Token>> = Vec::with_capacity(32); let mut err = false; let mut calls = 0usize; let mut runaway = false;
    loop {
        calls += 1; if calls > 2 * len + 2 { runaway = true; break; }
        match lx.get_symbol() { Err(e) => { core::mem::forget(e); err = true; break; } Ok(t) => { let end = tok_info(&t).0 == K_EOF; toks.push(t); if end { break; } } }
    }
    sx_check(!runaway, 22, 0);
    if runaway { return; }
    let mut h = 17u64 + err as u64; for t in toks.iter() { let (k, s, e) = tok_info(t); h = h.wrapping_mul(1000003).wrapping_add(k as u64 + 131 * (s as u64) + 16411 * (e as u64)); } sx_obs(h);
    if native() { for t in toks.iter() { let (k, s, e) = tok_info(t); eprint!("{} {}..{}; ", KNAMES[k as usize], s, e); } eprintln!("{}", if err { "error" } else { "" }); }
    if err { sx_cover(2); } else { sx_cover(1); }
    if flags & TOTAL != 0 {
        if err { for _ in 0..2 { let r = lx.get_symbol(); core::mem::forget(r); } }
        else {
            let at = tok_info(&toks[toks.len() - 1]).1;
            let end = at as usize >= len || x.t[at as usize] == 0; sx_check(end, 22, 0);
            for _ in 0..2 { let again = match lx.get_symbol() { Ok(t) => { let (k, s, _) = tok_info(&t); core::mem::forget(t); k == K_EOF && s == at } Err(e) => { core::mem::forget(e); false } }; sx_check(again, 22, 0); }
        }
    }
    let mut crlf = false;
    if flags & (REF | SPAN | BAL) != 0 {
        let (ok, kf) = compare(x, &toks, err, false); crlf = kf;
        if flags & REF != 0 {
            if kf { sx_cover(6); let (m, _) = compare(x, &toks, err, true); sx_check(ok | m, 20, 0); sx_check(ok, 25, 1); } else { sx_check(ok, 20, 0); }
        }
    }
    if flags & SPAN != 0 {
        let mut at = 0usize; let mut good = true;
        for t in toks.iter() {
            let (k, s, e) = tok_info(t); if k == K_Indent || k == K_Dedent { continue; }
            let (s, e) = (s as usize, e as usize);
            if s < at || (k != K_EOF && e <= s) || (e > len && !crlf) || !gap_ok(&x.t, at, s.min(len)) { good = false; break; }
            at = e;
        }
        sx_check(good, 21, crlf as u32);
    }
    if flags & BAL != 0 {
        let (mut d, mut low) = (0i32, false);
        for t in toks.iter() { match tok_info(t).0 { K_Indent => d += 1, K_Dedent => { d -= 1; if d < 0 { low = true; } } _ => {} } }
        sx_check(!low, 23, 0);
        if !err {
            let mut l = L::new(&x.t, crlf); loop { match l.next() { None => break, Some(t) => if t.k == K_EOF { break; } } }
            if !l.open { let last = !l.fresh; if last { sx_cover(7); } let left = l.ind.len() as i32 - 1; if last { sx_check((d == 0) | (d == left), 26, 0); } sx_check(d == 0, 26, last as u32); }
        }
    }
    core::mem::forget(toks); core::mem::forget(lx);
}
pub fn dump_tokens(s: &str) {
    let r = std::panic::catch_unwind(|| {
        let mut lx = PythonCoreTokenizer::new(s.to_string()); let mut o = String::new();
        for _ in 0..2 * s.len() + 2 {
            match lx.get_symbol() { Err(_) => { o += "error"; break; } Ok(t) => { let (k, a, b) = tok_info(&t); o += &format!("{}@{}..{} ", KNAMES[k as usize], a, b); if k == K_EOF { break; } } }
        }
        o
    });
    println!("{}", match r { Ok(o) => o, Err(_) => "panic".to_string() });
}
