//! Parser harness: symbolic token stream, reference grammar, comparison, families.
#![allow(dead_code, unused, non_upper_case_globals, static_mut_refs)]
use crate::parser::nodes::ASTNode;
use crate::parser::tokens::Token;
use crate::parser::trivias::Trivia;
use crate::parser::tokenizer::{PythonCoreTokenizer, Tokenizer};
use crate::parser::parser::{Parser, PythonCoreParser};
use crate::parser::blocks::Blocks;
use crate::parser::expressions::Expressions;
use crate::parser::statements::Statements;
use crate::parser::functions::Functions;
use crate::vgen::*;
use crate::vsx::*;

/// no place of the text that matters lies behind this one
pub fn maxt() -> usize { let s = g(); let n = if lexed() { s.kinds.len() } else { s.next }; if n < 48 { 64 } else { n + 16 } }
/// position of the first token: far into a text, so that no narrower arithmetic on positions goes unseen
pub const BASE: u32 = 0x7ff2_3450;
pub const K_MATCH: u8 = 250; // a name token spelled "match"
pub const K_ERR: u8 = 251;   // a lexical error instead of a token
pub const K_PSTR: u8 = 252;  // a string literal with a prefix
pub const K_CRNL: u8 = 253;  // a line break written as carriage return
/// one place of a family: a token out of an alphabet, or one of several phrases
pub enum Sl { A(&'static [u8]), P(&'static [&'static [Sl]]) }

// ---- symbolic token stream ------------------------------------------------------------------
pub struct Slot { kind: u8, var: u8, tag: u64, special: bool }
fn canon(k: u8) -> u8 { match k { K_PSTR => K_AtomString, K_CRNL => K_Newline, k => k } }
pub struct Stream {
    pub real: bool, pub slots: Vec<Slot>, pub work: Vec<(&'static [Sl], usize)>, pub put: Option<&'static [u8]>, pub any: &'static [u8], pub muts: u32, pub mctr: u32, pub next: usize, pub cur: usize,
    pub image: [u64; 6], pub tagw: usize, pub startw: usize, pub startsh: u32, pub tags: Vec<u64>, pub eof: bool, pub err_seen: bool, pub after_err: u32, pub calls: u32,
    // native replay
    pub kinds: Vec<u8>, pub pos: Vec<u32>, pub starts: Vec<u32>, pub texts: Vec<u64>,
}
pub static mut G: Option<Stream> = None;
pub fn g() -> &'static mut Stream { unsafe { match &mut G { Some(x) => x, None => panic!("stream") } } }
/// the tokens come from the real tokenizer
fn lexed() -> bool { native() || g().real }
fn raw(t: &Token) -> [u64; 6] { let mut r = [0u64; 6]; let p = t as *const Token as *const u64; for i in 0..6 { r[i] = unsafe { core::ptr::read_volatile(p.add(i)) }; } r }

pub fn setup(fam: &'static [Sl]) {
    let mut s = Stream { real: false, slots: Vec::new(), work: vec![(fam, 0)], put: None, any: &[K_EOF], muts: 0, mctr: 0, next: 0, cur: 0, image: [0; 6], tagw: 99, startw: 99, startsh: 0, tags: vec![0; 256], eof: false, err_seen: false, after_err: 0, calls: 0, kinds: Vec::new(), pos: Vec::new(), starts: Vec::new(), texts: Vec::new() };
    if !native() {
        if core::mem::size_of::<Token>() != 48 { sx_fail(90); }
        // locate the discriminant word and the start position inside the token representation
        let imgs: Vec<[u64; 6]> = SIMPLE.iter().map(|k| raw(&mk_simple(*k, 0x1111_1111, 0x2222_2222))).collect();
        for w in 0..6 {
            let mut differs = false; for i in 1..imgs.len() { if imgs[i][w] != imgs[0][w] { differs = true; } }
            if differs { if s.tagw != 99 { sx_fail(91); } s.tagw = w; }
            if imgs[0][w] as u32 == 0x1111_1111 { s.startw = w; s.startsh = 0; }
            if (imgs[0][w] >> 32) as u32 == 0x1111_1111 { s.startw = w; s.startsh = 32; }
        }
        if s.tagw == 99 || s.startw == 99 { sx_fail(92); }
        for i in 0..imgs.len() { s.tags[SIMPLE[i] as usize] = imgs[i][s.tagw]; for j in 0..i { if imgs[i][s.tagw] == imgs[j][s.tagw] { sx_fail(93); } } }
    }
    unsafe { G = Some(s); }
}
const SPEC: [bool; 256] = { let mut a = [true; 256]; let mut i = 0; while i < SIMPLE.len() { a[SIMPLE[i] as usize] = false; i += 1; } a };

/// alphabet of the next token; picks phrases and, in mutated families, the place and kind of the edit
fn next_alpha() -> Option<&'static [u8]> {
    let s = g();
    if let Some(a) = s.put { s.put = None; return Some(a); }
    loop {
        let (l, i) = match s.work.pop() { Some(x) => x, None => return if s.muts > 0 && edit(1) == 1 { s.muts -= 1; Some(s.any) } else { s.muts = 0; None } };
        if i >= l.len() { continue; }
        s.work.push((l, i + 1));
        match &l[i] {
            Sl::A(a) => {
                if s.muts == 0 || (a.len() == 1 && a[0] == K_EOF) { return Some(a); }
                match edit(3) { 1 => { s.muts -= 1; return Some(s.any); } 2 => { s.muts -= 1; s.put = Some(a); return Some(s.any); } 3 => { s.muts -= 1; } _ => return Some(a) }
            }
            Sl::P(v) => { let c = if v.len() == 1 { 0 } else { sx_conc(sx_pick(v.len() as u32) as u64) as usize }; s.work.push((v[c], 0)); }
        }
    }
}
/// 0 keep, 1 replace (or append), 2 insert before, 3 delete
fn edit(n: u32) -> u32 { sx_conc(sx_pick(n + 1) as u64) as u32 }
fn fill(i: usize) {
    let s = g();
    while s.slots.len() <= i {
        let al = if s.eof { None } else { next_alpha() };
        let al = match al { Some(a) => a, None => { s.slots.push(Slot { kind: K_EOF, var: K_EOF, tag: 0, special: true }); continue; } };
        let p = if al.len() == 1 { 0 } else { sx_pick(al.len() as u32) };
        let kind = al[p as usize];
        let special = SPEC[kind as usize];
        let (kind, tag) = if special { (sx_conc(kind as u64) as u8, 0) } else { (kind, s.tags[kind as usize]) };
        if special && kind == K_EOF { s.eof = true; }
        s.slots.push(if special { Slot { kind: canon(kind), var: kind, tag, special } } else { Slot { kind, var: 0, tag, special } });
    }
}
/// kind of the i-th token
pub fn kind_at(i: usize) -> u8 {
    if lexed() { let s = g(); return if i < s.kinds.len() { s.kinds[i] } else { K_EOF }; }
    fill(i); g().slots[i].kind
}
fn make(i: usize) -> Result<Box<Token>, String> {
    let s = g(); let a = BASE + 16 * i as u32; let sl = &s.slots[i];
    if !sl.special {
        let mut t = Box::new(mk_simple(SIMPLE[0], a, a + 7));
        unsafe { core::ptr::write_volatile((&mut *t as *mut Token as *mut u64).add(s.tagw), sl.tag); }
        return Ok(t);
    }
    Ok(Box::new(match sl.var {
        K_AtomName => Token::AtomName(a, a + 7, None, Box::new("nm".to_string())),
        K_MATCH => { sx_cover(90); Token::AtomName(a, a + 7, None, Box::new("match".to_string())) }
        K_AtomNumber => Token::AtomNumber(a, a + 7, None, Box::new("1".to_string())),
        K_AtomString => Token::AtomString(a, a + 7, None, Box::new("'s'".to_string()), None),
        K_PSTR => Token::AtomString(a, a + 7, None, Box::new("'s'".to_string()), Some("b".to_string())),
        K_CRNL => Token::Newline(a, a + 7, None, '\r', ' '),
        K_Newline => Token::Newline(a, a + 7, None, '\n', ' '),
        K_Indent => Token::Indent(None),
        K_Dedent => Token::Dedent(None),
        K_TypeComment => Token::TypeComment(a, a + 7, None, Box::new("# type: t".to_string())),
        K_ERR => return Err("lexical error".to_string()),
        _ => Token::EOF(a, None),
    }))
}
#[no_mangle] pub fn stub_get_symbol(_t: &mut PythonCoreTokenizer) -> Result<Box<Token>, String> {
    let i = g().next; fill(i);
    let s = g();
    s.cur = i; s.calls += 1;
    if s.calls > 400 && s.calls as usize > 3 * s.next + 100 { sx_fail(94); }
    if s.err_seen { s.after_err += 1; }
    if s.slots[i].special { if s.slots[i].kind == K_ERR { s.err_seen = true; } }
    if !(s.slots[i].special && s.slots[i].kind == K_EOF) { s.next = i + 1; }
    make(i)
}
#[no_mangle] pub fn stub_get_position(_t: &PythonCoreTokenizer) -> u32 { BASE + 16 * g().cur as u32 }

// ---- walking the implementation's tree ------------------------------------------------------
pub struct Walk { pub o: Vec<u32>, pub spans: bool, pub s: u32, pub e: u32, pub same: bool, pub count: Vec<u32> }
impl Walk {
    pub fn open(&mut self, n: u32) { self.o.push(n); if self.spans { let (a, b) = (slot_of_pos(self.s), slot_of_pos(self.e)); self.o.push(a); self.o.push(b); } }
    pub fn close(&mut self) { self.o.push(2); }
}
/// a dedent stands at the token that follows it
fn canon_slot(mut i: usize) -> u32 { while i < maxt() && kind_at(i) == K_Dedent { i += 1; } 3000 + i as u32 }
fn slot_of_pos(p: u32) -> u32 {
    if lexed() { let s = g(); for i in 0..s.pos.len() { if s.pos[i] == p { return canon_slot(i); } } return 400000 + p; }
    let p = p.wrapping_sub(BASE); if p % 16 == 0 && p < 0x10000 { canon_slot(p as usize / 16) } else { 400000 + p % 100000 }
}
/// the same tree without the positions
fn unspan(o: &[u32]) -> Vec<u32> {
    let mut v = Vec::with_capacity(o.len()); let mut i = 0;
    while i < o.len() { v.push(o[i]); if o[i] >= 1000 && o[i] < 2000 { i += 2; } i += 1; }
    v
}
fn text_sum(s: &str) -> u64 { let mut h = 7u64; for b in s.as_bytes() { h = (h.wrapping_mul(31)).wrapping_add(*b as u64); } h }
fn trivia_sum(t: &Token) -> u64 {
    let mut h = 0u64;
    if let Some(v) = tok_trivia(t) { for x in v.iter() { let (k, s, e, n) = match &**x {
        Trivia::WhiteSpace(s, e, c) => (1, *s, *e, *c as u64), Trivia::Newline(s, e, a, b) => (2, *s, *e, *a as u64 * 256 + *b as u64),
        Trivia::LineContinuation(s, e, a, b, c) => (3, *s, *e, (*a as u64 * 256 + *b as u64) * 256 + *c as u64), Trivia::Comment(s, e, n) => (4, *s, *e, text_sum(n)) };
        h = h.wrapping_mul(1000003).wrapping_add(k + 8 * s as u64 + 65536 * e as u64).wrapping_mul(31).wrapping_add(n).wrapping_add(1); } }
    h
}
fn content(t: &Token) -> u64 { trivia_sum(t).wrapping_add(match t {
    Token::AtomName(_, _, _, x) | Token::AtomNumber(_, _, _, x) | Token::TypeComment(_, _, _, x) => text_sum(x),
    Token::AtomString(_, _, _, x, p) => text_sum(x).wrapping_add(match p { None => 0, Some(q) => 1 + text_sum(q) }),
    Token::Newline(_, _, _, a, b) => *a as u64 * 77 + *b as u64, _ => 0 }) }
pub fn tok_code(t: &Token, w: &mut Walk) {
    let s = g();
    match t { Token::Indent(..) => { w.o.push(2900); return; } Token::Dedent(..) => { w.o.push(2901); return; } _ => {} }
    if lexed() {
        let (k, st, _) = tok_info(t);
        for i in 0..s.starts.len() { if s.starts[i] == st && s.kinds[i] != K_Indent && s.kinds[i] != K_Dedent {
            let kk = if s.kinds[i] == K_MATCH { K_AtomName } else { s.kinds[i] };
            w.same = w.same && k == kk && (k == K_EOF || content(t) == s.texts[i]);
            w.o.push(2000 + i as u32); if i < w.count.len() { w.count[i] += 1; } return; } }
        w.o.push(2950); w.same = false; return;
    }
    let simple = match t { Token::AtomName(..) | Token::AtomNumber(..) | Token::AtomString(..) | Token::Newline(..) | Token::TypeComment(..) | Token::EOF(..) => false, _ => true };
    let st = if simple { (raw(t)[s.startw] >> s.startsh) as u32 } else { tok_info(t).1 };
    let st = st.wrapping_sub(BASE); let i = (st / 16) as usize;
    if st % 16 != 0 || i >= s.slots.len() { w.o.push(2950); w.same = false; return; }
    w.o.push(2000 + i as u32); if i < w.count.len() { w.count[i] += 1; }
    if simple { w.same = w.same & !s.slots[i].special & (raw(t)[s.tagw] == s.slots[i].tag); }
    else { let k = tok_info(t).0; let kk = if s.slots[i].kind == K_MATCH { K_AtomName } else { s.slots[i].kind };
        w.same = w.same & (k == kk); if k != K_EOF { if let Ok(o) = make(i) { w.same = w.same & (content(&o) == content(t)); } } }
}

// ---- reference grammar ----------------------------------------------------------------------
type O = Option<Vec<u32>>;
pub struct R { pub p: usize, pub spans: bool, pub kf: u32 }
fn list(v: &Vec<Vec<u32>>, rev: bool) -> Vec<u32> {
    let mut o = vec![3, v.len() as u32];
    if rev { for x in v.iter().rev() { o.extend_from_slice(x); } } else { for x in v.iter() { o.extend_from_slice(x); } }
    o
}
fn opt(v: Option<Vec<u32>>) -> Vec<u32> { match v { Some(x) => x, None => vec![1] } }
impl R {
    fn k(&self) -> u8 { kind_at(self.p) }
    fn is(&self, k: u8) -> bool { self.k() == k }
    fn tok(&mut self) -> Vec<u32> {
        let k = self.k(); let i = self.p;
        if k == K_EOF { return vec![2000 + i as u32]; }
        self.p += 1;
        if k == K_Indent { return vec![2900]; } if k == K_Dedent { return vec![2901]; }
        vec![2000 + i as u32]
    }
    fn eat(&mut self, k: u8) -> O { if self.is(k) { Some(self.tok()) } else { None } }
    fn node(&self, n: u32, s: usize, parts: &[&[u32]]) -> Vec<u32> {
        let mut o = Vec::with_capacity(64);
        o.push(n); if self.spans { o.push(canon_slot(s)); o.push(canon_slot(self.p)); }
        for p in parts { o.extend_from_slice(p); }
        o.push(2); o
    }
    fn find(&mut self, bit: u32) -> O { self.kf |= 1 << bit; None }

    // -- expressions --
    fn atom(&mut self) -> O {
        let s = self.p; let k = self.k();
        let n = match k { K_PyElipsis => N_AtomElipsis, K_PyFalse => N_AtomFalse, K_PyNone => N_AtomNone, K_PyTrue => N_AtomTrue, K_AtomName | K_MATCH => N_AtomName, K_AtomNumber => N_AtomNumber, _ => 0 };
        if n != 0 { let t = self.tok(); return Some(self.node(n, s, &[&t])); }
        match k {
            K_AtomString => { let mut v = vec![]; while self.is(K_AtomString) { v.push(self.tok()); } Some(self.node(N_AtomString, s, &[&list(&v, false)])) }
            K_PyLeftParen => {
                let a = self.tok();
                let m = if self.is(K_PyRightParen) { vec![1] } else if self.is(K_PyYield) { self.yield_expr()? } else { self.testlist_comp(K_PyRightParen)? };
                let b = self.eat(K_PyRightParen)?; Some(self.node(N_AtomTuple, s, &[&a, &m, &b]))
            }
            K_PyLeftBracket => {
                let a = self.tok();
                let m = if self.is(K_PyRightBracket) { vec![1] } else { self.testlist_comp(K_PyRightBracket)? };
                let b = self.eat(K_PyRightBracket)?; Some(self.node(N_AtomList, s, &[&a, &m, &b]))
            }
            K_PyLeftCurly => {
                let a = self.tok();
                if self.is(K_PyRightCurly) { let b = self.tok(); return Some(self.node(N_AtomDictionary, s, &[&a, &[1], &b])); }
                let (dict, m) = self.dictset()?;
                let b = self.eat(K_PyRightCurly)?;
                Some(self.node(if dict { N_AtomDictionary } else { N_AtomSet }, s, &[&a, &m, &b]))
            }
            _ => None,
        }
    }
    fn dictset(&mut self) -> Option<(bool, Vec<u32>)> {
        let s = self.p; let mut v = vec![]; let mut seps = vec![]; let mut dict = true;
        loop {
            let es = self.p;
            if v.is_empty() {
                if self.is(K_PyMul) { dict = false; }
                else if !self.is(K_PyPower) {
                    let l = self.test()?;
                    if self.is(K_PyColon) { let c = self.tok(); let r = self.test()?; v.push(self.node(N_DictionaryEntry, es, &[&l, &c, &r])); } else { dict = false; v.push(l); }
                    if self.is(K_PyFor) || self.is(K_PyAsync) { self.find(1); return None; } // comprehension
                }
            }
            if v.is_empty() || es != s {
                if dict && self.is(K_PyPower) { let t = self.tok(); let e = self.expr()?; v.push(self.node(N_PowerDictionary, es, &[&t, &e])); }
                else if !dict && self.is(K_PyMul) { let t = self.tok(); let e = self.expr()?; v.push(self.node(N_MulSet, es, &[&t, &e])); }
                else { let l = self.test()?; if dict { let c = self.eat(K_PyColon)?; let r = self.test()?; v.push(self.node(N_DictionaryEntry, es, &[&l, &c, &r])); } else { v.push(l); } }
            }
            if self.is(K_PyComa) { seps.push(self.tok()); if self.is(K_PyRightCurly) { break; } } else { break; }
        }
        let r = self.node(if dict { N_DictionaryContainer } else { N_SetContainer }, s, &[&list(&v, true), &list(&seps, true)]);
        Some((dict, r))
    }
    fn star_expr(&mut self) -> O { let s = self.p; let t = self.eat(K_PyMul)?; let e = self.expr()?; Some(self.node(N_StarExpr, s, &[&t, &e])) }
    fn testlist_comp(&mut self, close: u8) -> O {
        let s = self.p; let mut v = vec![]; let mut seps = vec![];
        v.push(if self.is(K_PyMul) { self.star_expr()? } else { self.named()? });
        if self.is(K_PyFor) || self.is(K_PyAsync) { v.push(self.comp_for()?); }
        else { while self.is(K_PyComa) { seps.push(self.tok()); if self.is(close) { break; } v.push(if self.is(K_PyMul) { self.star_expr()? } else { self.named()? }); } }
        Some(self.node(N_TestListComp, s, &[&list(&v, true), &list(&seps, true)]))
    }
    fn atom_expr(&mut self) -> O {
        let s = self.p;
        let aw = if self.is(K_PyAwait) { Some(self.tok()) } else { None };
        let a = self.atom()?; let mut tr = vec![];
        loop {
            let ts = self.p;
            match self.k() {
                K_PyLeftParen => { let a = self.tok(); let m = if self.is(K_PyRightParen) { vec![1] } else { self.arglist()? }; let b = self.eat(K_PyRightParen)?; tr.push(self.node(N_CallTrailer, ts, &[&a, &m, &b])); }
                K_PyLeftBracket => { let a = self.tok(); let m = self.subscript_list()?; let b = self.eat(K_PyRightBracket)?; tr.push(self.node(N_IndexTrailer, ts, &[&a, &m, &b])); }
                K_PyDot => { let a = self.tok(); let b = self.name()?; tr.push(self.node(N_DotNameTrailer, ts, &[&a, &b])); }
                _ => break,
            }
        }
        if aw.is_none() && tr.is_empty() { return Some(a); }
        Some(self.node(N_AtomExpr, s, &[&opt(aw), &a, &list(&tr, false)]))
    }
    fn name(&mut self) -> O { if self.is(K_AtomName) || self.is(K_MATCH) { Some(self.tok()) } else { None } }
    fn power(&mut self) -> O { let s = self.p; let l = self.atom_expr()?; if self.is(K_PyPower) { let t = self.tok(); let r = self.factor()?; Some(self.node(N_PowerExpr, s, &[&l, &t, &r])) } else { Some(l) } }
    fn factor(&mut self) -> O {
        let s = self.p;
        let n = match self.k() { K_PyPlus => N_UnaryPlus, K_PyMinus => N_UnaryMinus, K_PyBitInvert => N_UnaryInvert, _ => return self.power() };
        let t = self.tok(); let r = self.factor()?; Some(self.node(n, s, &[&t, &r]))
    }
    /// left associative binary level
    fn bin(&mut self, lvl: u32) -> O {
        let s = self.p;
        let mut l = self.sub(lvl)?;
        loop {
            let n = match (lvl, self.k()) {
                (0, K_PyMul) => N_MulTerm, (0, K_PyDiv) => N_DivTerm, (0, K_PyFloorDiv) => N_FloorDivTerm, (0, K_PyModulo) => N_ModuloTerm, (0, K_PyMatrice) => N_MatriceTerm,
                (1, K_PyPlus) => N_PlusArithExpr, (1, K_PyMinus) => N_MinusArithExpr,
                (2, K_PyShiftLeft) => N_ShiftLeftExpr, (2, K_PyShiftRight) => N_ShiftRightExpr,
                (3, K_PyBitAnd) => N_AndExpr, (4, K_PyBitXor) => N_XorExpr, (5, K_PyBitOr) => N_Expr,
                (6, K_PyLess) => N_LessComparison, (6, K_PyLessEqual) => N_LessEqualComparison, (6, K_PyEqual) => N_EqualComparison, (6, K_PyGreater) => N_GreaterComparison, (6, K_PyGreaterEqual) => N_GreaterEqualComparison, (6, K_PyNotEqual) => N_NotEqualComparison, (6, K_PyIn) => N_InComparison,
                (6, K_PyIs) => N_IsComparison, (6, K_PyNot) => N_NotInComparison,
                (7, K_PyAnd) => N_AndTest, (8, K_PyOr) => N_OrTest,
                _ => break };
            let t = self.tok();
            if n == N_IsComparison && self.is(K_PyNot) { let t2 = self.tok(); let r = self.sub(lvl)?; l = self.node(N_IsNotComparison, s, &[&l, &t, &t2, &r]); }
            else if n == N_NotInComparison { let t2 = self.eat(K_PyIn)?; let r = self.sub(lvl)?; l = self.node(n, s, &[&l, &t, &t2, &r]); }
            else { let r = self.sub(lvl)?; l = self.node(n, s, &[&l, &t, &r]); }
        }
        Some(l)
    }
    fn sub(&mut self, lvl: u32) -> O { match lvl { 0 => self.factor(), 7 => self.not_test(), _ => self.bin(lvl - 1) } }
    fn expr(&mut self) -> O { self.bin(5) }
    fn not_test(&mut self) -> O { let s = self.p; if self.is(K_PyNot) { let t = self.tok(); let r = self.not_test()?; Some(self.node(N_NotTest, s, &[&t, &r])) } else { self.bin(6) } }
    fn or_test(&mut self) -> O { self.bin(8) }
    fn test(&mut self) -> O {
        let s = self.p;
        if self.is(K_PyLambda) { return self.lambda(true); }
        let l = self.or_test()?;
        if !self.is(K_PyIf) { return Some(l); }
        let t1 = self.tok(); let c = self.or_test()?; let t2 = self.eat(K_PyElse)?; let e = self.test()?;
        Some(self.node(N_Test, s, &[&l, &t1, &c, &t2, &e]))
    }
    fn test_nocond(&mut self) -> O { if self.is(K_PyLambda) { self.lambda(false) } else { self.or_test() } }
    fn lambda(&mut self, cond: bool) -> O {
        let s = self.p; let t1 = self.tok();
        let a = if self.is(K_PyColon) { vec![1] } else { self.varargs()? };
        let t2 = self.eat(K_PyColon)?;
        let b = if cond { self.test()? } else { self.or_test()? };
        Some(self.node(N_Lambda, s, &[&t1, &a, &t2, &b]))
    }
    fn vfp(&mut self, dflt: bool) -> O {
        let s = self.p; let t = self.name()?; let n = self.node(N_VFPDef, s, &[&t]);
        if dflt && self.is(K_PyAssign) { let t = self.tok(); let r = self.test()?; return Some(self.node(N_VFPAssign, s, &[&n, &t, &r])); }
        Some(n)
    }
    fn varargs(&mut self) -> O {
        let s = self.p; let (mut v, mut seps) = (vec![], vec![]);
        let (mut mt, mut mn, mut pt, mut pn, mut dv) = (None, None, None, None, None);
        let mut first = true;
        loop {
            if !first { if !self.is(K_PyComa) { break; } seps.push(self.tok()); if self.is(K_PyColon) || pt.is_some() { break; } }
            match self.k() {
                K_PyMul if mt.is_none() => { mt = Some(self.tok()); if !self.is(K_PyComa) { mn = Some(self.vfp(false)?); } }
                K_PyPower => { pt = Some(self.tok()); pn = Some(self.vfp(false)?); }
                K_PyDiv if !first && dv.is_none() && mt.is_none() => { dv = Some(self.tok()); }
                _ => v.push(self.vfp(true)?),
            }
            first = false;
        }
        Some(self.node(N_VarArgsList, s, &[&list(&v, true), &list(&seps, true), &opt(mt), &opt(mn), &opt(pt), &opt(pn), &opt(dv)]))
    }
    fn named(&mut self) -> O { let s = self.p; let l = self.test()?; if self.is(K_PyColonAssign) { let t = self.tok(); let r = self.test()?; Some(self.node(N_NamedExpr, s, &[&l, &t, &r])) } else { Some(l) } }
    fn arglist(&mut self) -> O {
        let s = self.p; let (mut v, mut seps) = (vec![], vec![]);
        loop { v.push(self.argument()?); if !self.is(K_PyComa) { break; } seps.push(self.tok()); if self.is(K_PyRightParen) { break; } }
        Some(self.node(N_ArgList, s, &[&list(&v, true), &list(&seps, true)]))
    }
    fn argument(&mut self) -> O {
        let s = self.p;
        if self.is(K_PyMul) || self.is(K_PyPower) { let t = self.tok(); let r = self.test()?; return Some(self.node(N_Argument, s, &[&[1], &t, &r])); }
        let l = self.test()?;
        if self.is(K_PyFor) || self.is(K_PyAsync) { let r = self.comp_for()?; return Some(self.node(N_Argument, s, &[&l, &[1], &r])); }
        if self.is(K_PyColonAssign) || self.is(K_PyAssign) { let t = self.tok(); let r = self.test()?; return Some(self.node(N_Argument, s, &[&l, &t, &r])); }
        Some(self.node(N_Argument, s, &[&l, &[1], &[1]]))
    }
    fn subscript_list(&mut self) -> O {
        let s = self.p; let (mut v, mut seps) = (vec![], vec![]);
        loop { v.push(self.subscript()?); if !self.is(K_PyComa) { break; } seps.push(self.tok()); if self.is(K_PyRightBracket) { break; } }
        Some(self.node(N_SubscriptList, s, &[&list(&v, true), &list(&seps, true)]))
    }
    fn subscript(&mut self) -> O {
        let s = self.p; let (mut a, mut t1, mut b, mut t2, mut c) = (None, None, None, None, None);
        if !self.is(K_PyColon) { a = Some(self.test()?); }
        if self.is(K_PyColon) {
            t1 = Some(self.tok());
            let k = self.k(); if !(k == K_PyRightBracket || k == K_PyComa || k == K_PyColon) { b = Some(self.test()?); }
            if self.is(K_PyColon) { t2 = Some(self.tok()); let k = self.k(); if !(k == K_PyRightBracket || k == K_PyComa) { c = Some(self.test()?); } }
        }
        Some(self.node(N_Subscript, s, &[&opt(a), &opt(t1), &opt(b), &opt(t2), &opt(c)]))
    }
    fn comp_for(&mut self) -> O {
        let s = self.p;
        if self.is(K_PyAsync) { let t = self.tok(); let r = self.sync_comp_for()?; return Some(self.node(N_CompForComprehension, s, &[&t, &r])); }
        self.sync_comp_for()
    }
    fn sync_comp_for(&mut self) -> O {
        let s = self.p; let t1 = self.eat(K_PyFor)?; let l = self.exprlist()?; let t2 = self.eat(K_PyIn)?; let r = self.or_test()?; let n = self.comp_iter()?;
        Some(self.node(N_SyncCompForComprehension, s, &[&t1, &l, &t2, &r, &n]))
    }
    fn comp_iter(&mut self) -> O {
        let s = self.p;
        match self.k() { K_PyFor | K_PyAsync => self.comp_for(), K_PyIf => { let t = self.tok(); let c = self.test_nocond()?; let n = self.comp_iter()?; Some(self.node(N_CompIfComprehension, s, &[&t, &c, &n])) } _ => Some(vec![1]) }
    }
    fn exprlist(&mut self) -> O {
        let s = self.p; let (mut v, mut seps) = (vec![], vec![]);
        loop {
            v.push(if self.is(K_PyMul) { self.star_expr()? } else { self.expr()? });
            if !self.is(K_PyComa) { break; } seps.push(self.tok());
            match self.k() { K_PyIn | K_Newline | K_PySemiColon | K_EOF => break, _ => {} }
        }
        if v.len() == 1 && seps.is_empty() { return Some(v.pop().unwrap()); }
        Some(self.node(N_ExprList, s, &[&list(&v, false), &list(&seps, false)]))
    }
    fn testlist(&mut self) -> O {
        let s = self.p; let (mut v, mut seps) = (vec![], vec![]);
        loop {
            if self.is(K_PyMul) { self.find(2); return None; } // starred element
            v.push(self.test()?);
            if !self.is(K_PyComa) { break; } seps.push(self.tok());
            match self.k() { K_Newline | K_PySemiColon | K_EOF | K_PyColon | K_PyAssign | K_TypeComment => break, _ => {} }
        }
        if v.len() == 1 && seps.is_empty() { return Some(v.pop().unwrap()); }
        Some(self.node(N_TestList, s, &[&list(&v, false), &list(&seps, false)]))
    }
    fn tlse(&mut self) -> O {
        let s = self.p; let (mut v, mut seps) = (vec![], vec![]);
        loop {
            v.push(if self.is(K_PyMul) { self.star_expr()? } else { self.test()? });
            if !self.is(K_PyComa) { break; } seps.push(self.tok());
            let k = self.k();
            match k { K_PyAssign | K_PySemiColon | K_Newline | K_EOF | K_PyRightParen | K_PyColon => break, _ => {} }
            if aug(k) != 0 { break; }
        }
        if v.len() == 1 && seps.is_empty() { return Some(v.pop().unwrap()); }
        Some(self.node(N_TestListStarExpr, s, &[&list(&v, true), &list(&seps, true)]))
    }
    fn yield_expr(&mut self) -> O {
        let s = self.p; let t = self.eat(K_PyYield)?;
        if self.is(K_PyFrom) { let t2 = self.tok(); let r = self.test()?; return Some(self.node(N_YieldFromExpr, s, &[&t, &t2, &r])); }
        match self.k() { K_Newline | K_PySemiColon | K_EOF | K_PyRightParen | K_PyAssign | K_TypeComment => { return self.find(3); } _ => {} } // bare yield
        let r = self.tlse()?; Some(self.node(N_YieldExpr, s, &[&t, &r]))
    }

    // -- statements --
    fn stmt(&mut self) -> O {
        match self.k() { K_MATCH => { self.find(0) } K_PyIf | K_PyWhile | K_PyFor | K_PyTry | K_PyWith | K_PyDef | K_PyClass | K_PyAsync | K_PyMatrice => self.compound(), _ => self.simple() }
    }
    fn simple(&mut self) -> O {
        let s = self.p; let (mut v, mut seps) = (vec![], vec![]);
        loop { v.push(self.small()?); if !self.is(K_PySemiColon) { break; } seps.push(self.tok()); if self.is(K_Newline) { break; } }
        if self.is(K_EOF) { return self.find(4); } // a last line without line break
        let nl = self.eat(K_Newline)?;
        Some(self.node(N_SimpleStmtList, s, &[&list(&v, true), &list(&seps, true), &nl]))
    }
    fn small(&mut self) -> O {
        let s = self.p;
        match self.k() {
            K_PyDel => { let t = self.tok(); let l = self.exprlist()?; Some(self.node(N_DelStmt, s, &[&t, &l])) }
            K_PyPass => { let t = self.tok(); Some(self.node(N_PassStmt, s, &[&t])) }
            K_PyBreak => { let t = self.tok(); Some(self.node(N_BreakStmt, s, &[&t])) }
            K_PyContinue => { let t = self.tok(); Some(self.node(N_ContinueStmt, s, &[&t])) }
            K_PyReturn => { let t = self.tok(); let r = match self.k() { K_Newline | K_PySemiColon | K_EOF => vec![1], _ => self.tlse()? }; Some(self.node(N_ReturnStmt, s, &[&t, &r])) }
            K_PyRaise => {
                let t = self.tok();
                let r = match self.k() { K_Newline | K_PySemiColon | K_EOF => vec![1], _ => { let mut e = self.test()?; if self.is(K_PyFrom) { e.extend(self.tok()); e.extend(self.test()?); } else { e.push(1); } e } };
                Some(self.node(N_RaiseStmt, s, &[&t, &r]))
            }
            K_PyYield => self.yield_expr(),
            K_PyImport => { let t = self.tok(); let n = self.dotted_as_names()?; Some(self.node(N_ImportNameStmt, s, &[&t, &n])) }
            K_PyFrom => self.import_from(),
            K_PyGlobal | K_PyNonLocal => {
                let n = if self.is(K_PyGlobal) { N_GlobalStmt } else { N_NonLocalStmt };
                let t = self.tok(); let (mut v, mut seps) = (vec![], vec![]);
                loop { v.push(self.name()?); if !self.is(K_PyComa) { break; } seps.push(self.tok()); }
                Some(self.node(n, s, &[&t, &list(&v, true), &list(&seps, true)]))
            }
            K_PyAssert => { let t = self.tok(); let a = self.test()?; let mut b = vec![1]; if self.is(K_PyComa) { b = self.tok(); b.extend(self.test()?); } Some(self.node(N_AssertStmt, s, &[&t, &a, &b])) }
            _ => self.expr_stmt(),
        }
    }
    fn rhs(&mut self) -> O { if self.is(K_PyYield) { self.yield_expr() } else { self.testlist() } }
    fn expr_stmt(&mut self) -> O {
        let s = self.p; let l = self.tlse()?; let k = self.k();
        if k == K_PyColon {
            let t = self.tok(); let a = self.test()?; let mut r = vec![1];
            if self.is(K_PyAssign) { r = self.tok(); r.extend(if self.is(K_PyYield) { self.yield_expr()? } else { self.rhs()? }); }
            return Some(self.node(N_AnnAssignStmt, s, &[&l, &t, &a, &r]));
        }
        if k == K_PyAssign {
            let mut v = vec![];
            while self.is(K_PyAssign) { let mut e = self.tok(); e.extend(self.rhs()?); v.push(e); }
            let tc = if self.is(K_TypeComment) { self.tok() } else { vec![1] };
            return Some(self.node(N_AssignmentStmt, s, &[&l, &list(&v, false), &tc]));
        }
        let n = aug(k); if n != 0 { let t = self.tok(); let r = self.rhs()?; return Some(self.node(n, s, &[&l, &t, &r])); }
        Some(l)
    }
    fn dotted_name(&mut self) -> O {
        let s = self.p; let (mut v, mut seps) = (vec![], vec![]);
        loop { v.push(self.name()?); if !self.is(K_PyDot) { break; } seps.push(self.tok()); }
        Some(self.node(N_DottedNameStmt, s, &[&list(&v, true), &list(&seps, true)]))
    }
    fn as_part(&mut self) -> O { if self.is(K_PyAs) { let mut t = self.tok(); t.extend(self.name()?); Some(t) } else { Some(vec![1]) } }
    fn dotted_as_names(&mut self) -> O {
        let s = self.p; let (mut v, mut seps) = (vec![], vec![]);
        loop { let es = self.p; let d = self.dotted_name()?; let a = self.as_part()?; v.push(self.node(N_DottedAsNameStmt, es, &[&d, &a])); if !self.is(K_PyComa) { break; } seps.push(self.tok()); }
        Some(self.node(N_DottedAsNamesStmt, s, &[&list(&v, true), &list(&seps, true)]))
    }
    fn import_as_names(&mut self, paren: bool) -> O {
        let s = self.p; let (mut v, mut seps) = (vec![], vec![]);
        loop { let es = self.p; let d = self.name()?; let a = self.as_part()?; v.push(self.node(N_ImportAsName, es, &[&d, &a])); if !self.is(K_PyComa) { break; } seps.push(self.tok()); if paren && self.is(K_PyRightParen) { break; } }
        Some(self.node(N_ImportAsNamesStmt, s, &[&list(&v, true), &list(&seps, true)]))
    }
    fn import_from(&mut self) -> O {
        let s = self.p; let t = self.tok(); let mut dots = vec![];
        while self.is(K_PyDot) || self.is(K_PyElipsis) { dots.push(self.tok()); }
        let m = if self.is(K_PyImport) { if dots.is_empty() { return None; } vec![1] } else { self.dotted_name()? };
        let t2 = self.eat(K_PyImport)?;
        let (mut a, mut n, mut b) = (vec![1], vec![1], vec![1]);
        if self.is(K_PyMul) { a = self.tok(); }
        else if self.is(K_PyLeftParen) { a = self.tok(); n = self.import_as_names(true)?; b = self.eat(K_PyRightParen)?; }
        else { n = self.import_as_names(false)?; }
        Some(self.node(N_ImportFromStmt, s, &[&t, &list(&dots, true), &m, &t2, &a, &n, &b]))
    }
    fn compound(&mut self) -> O {
        match self.k() {
            K_PyIf => self.if_stmt(), K_PyWhile => self.while_stmt(), K_PyFor => self.for_stmt(), K_PyTry => self.try_stmt(), K_PyWith => self.with_stmt(), K_PyDef => self.func_def(), K_PyClass => self.class_def(),
            K_PyAsync => { let s = self.p; let t = self.tok(); let r = match self.k() { K_PyDef => self.func_def()?, K_PyFor => self.for_stmt()?, K_PyWith => self.with_stmt()?, _ => return None }; Some(self.node(N_AsyncStmt, s, &[&t, &r])) }
            K_PyMatrice => self.decorated(),
            _ => None,
        }
    }
    fn else_part(&mut self) -> O { if !self.is(K_PyElse) { return Some(vec![1]); } let s = self.p; let t = self.tok(); let c = self.eat(K_PyColon)?; let b = self.suite()?; Some(self.node(N_ElseStmt, s, &[&t, &c, &b])) }
    fn if_stmt(&mut self) -> O {
        let s = self.p; let t = self.tok(); let c = self.named()?; let t2 = self.eat(K_PyColon)?; let b = self.suite()?; let mut v = vec![];
        while self.is(K_PyElif) { let es = self.p; let t = self.tok(); let c = self.named()?; let t2 = self.eat(K_PyColon)?; let b = self.suite()?; v.push(self.node(N_ElifStmt, es, &[&t, &c, &t2, &b])); }
        let e = self.else_part()?;
        Some(self.node(N_IfStmt, s, &[&t, &c, &t2, &b, &list(&v, true), &e]))
    }
    fn while_stmt(&mut self) -> O { let s = self.p; let t = self.tok(); let c = self.named()?; let t2 = self.eat(K_PyColon)?; let b = self.suite()?; let e = self.else_part()?; Some(self.node(N_WhileStmt, s, &[&t, &c, &t2, &b, &e])) }
    fn for_stmt(&mut self) -> O {
        let s = self.p; let t = self.tok(); let l = self.exprlist()?; let t2 = self.eat(K_PyIn)?; let r = self.testlist()?; let t3 = self.eat(K_PyColon)?;
        let tc = if self.is(K_TypeComment) { self.tok() } else { vec![1] };
        let b = self.suite()?; let e = self.else_part()?;
        Some(self.node(N_ForStmt, s, &[&t, &l, &t2, &r, &t3, &tc, &b, &e]))
    }
    fn finally_part(&mut self) -> O { let s = self.p; let t = self.eat(K_PyFinally)?; let c = self.eat(K_PyColon)?; let b = self.suite()?; Some(self.node(N_FinallyStmt, s, &[&t, &c, &b])) }
    fn try_stmt(&mut self) -> O {
        let s = self.p; let t = self.tok(); let c = self.eat(K_PyColon)?; let b = self.suite()?;
        if self.is(K_PyFinally) { let f = self.finally_part()?; return Some(self.node(N_TryStmt, s, &[&t, &c, &b, &[1], &[1], &f])); }
        let mut v = vec![]; let mut star = None;
        while self.is(K_PyExcept) {
            let es = self.p; let t = self.tok();
            let st = if self.is(K_PyMul) { Some(self.tok()) } else { None };
            if let Some(x) = star { if x != st.is_some() { return None; } } star = Some(st.is_some());
            let m = if self.is(K_PyColon) { vec![1] } else { let mut e = self.test()?; e.extend(self.as_part()?); e };
            let cl = self.node(N_ExceptClauseStmt, es, &[&t, &opt(st), &m]);
            let c = self.eat(K_PyColon)?; let b = self.suite()?;
            v.push(self.node(N_ExceptStmt, es, &[&cl, &c, &b]));
        }
        if v.is_empty() { return None; }
        let e = self.else_part()?;
        let f = if self.is(K_PyFinally) { self.finally_part()? } else { vec![1] };
        Some(self.node(N_TryStmt, s, &[&t, &c, &b, &list(&v, true), &e, &f]))
    }
    fn with_item(&mut self) -> O { let s = self.p; let t = self.test()?; let mut a = vec![1]; if self.is(K_PyAs) { a = self.tok(); a.extend(self.expr()?); } Some(self.node(N_WithItem, s, &[&t, &a])) }
    fn with_stmt(&mut self) -> O {
        let s = self.p; let t = self.tok(); let (mut v, mut seps) = (vec![], vec![]);
        let lp = if self.is(K_PyLeftParen) { self.tok() } else { vec![1] };
        let paren = lp[0] != 1;
        loop {
            match self.with_item() { Some(x) => v.push(x), None => { if paren { self.find(5); } return None; } }
            if !self.is(K_PyComa) { break; } seps.push(self.tok()); if paren && self.is(K_PyRightParen) { break; }
        }
        if paren && !self.is(K_PyRightParen) { return self.find(5); } // the parenthesis may belong to the first item's expression
        let rp = if paren { self.tok() } else { vec![1] };
        if paren && !self.is(K_PyColon) { return self.find(5); }
        let c = self.eat(K_PyColon)?;
        if self.is(K_TypeComment) { return self.find(8); } // type comment of a with statement
        let b = self.suite()?;
        Some(self.node(N_WithStmt, s, &[&t, &lp, &list(&v, true), &list(&seps, true), &rp, &c, &b]))
    }
    fn block(&mut self) -> O {
        let mut v = vec![self.stmt()?];
        while !self.is(K_Dedent) { v.push(self.stmt()?); }
        Some(list(&v, true))
    }
    fn suite(&mut self) -> O {
        let s = self.p;
        if !self.is(K_Newline) { return self.simple(); }
        let n = self.tok(); let i = self.eat(K_Indent)?; let v = self.block()?; let d = self.eat(K_Dedent)?;
        Some(self.node(N_SuiteStmt, s, &[&n, &i, &v, &d]))
    }
    fn func_body(&mut self) -> O {
        let s = self.p;
        if !self.is(K_Newline) { return self.simple(); }
        let n = self.tok(); let (mut tc, mut tn) = (vec![1], vec![1]);
        if self.is(K_TypeComment) { tc = self.tok(); tn = self.eat(K_Newline)?; }
        let i = self.eat(K_Indent)?; let v = self.block()?; let d = self.eat(K_Dedent)?;
        Some(self.node(N_FuncBodySuite, s, &[&n, &tc, &tn, &i, &v, &d]))
    }
    fn func_def(&mut self) -> O {
        let s = self.p; let t = self.tok(); let n = self.name()?;
        let ps = self.p; let lp = self.eat(K_PyLeftParen)?;
        match self.k() { K_AtomName | K_MATCH | K_PyMul | K_PyPower => return self.find(6), _ => {} } // parameters
        let rp = self.eat(K_PyRightParen)?;
        let par = self.node(N_Parameter, ps, &[&lp, &[1], &rp]);
        let mut ret = vec![1]; if self.is(K_PyArrow) { ret = self.tok(); ret.extend(self.test()?); }
        let c = self.eat(K_PyColon)?; let tc = if self.is(K_TypeComment) { self.tok() } else { vec![1] };
        let b = self.func_body()?;
        Some(self.node(N_FuncDef, s, &[&t, &n, &par, &ret, &c, &tc, &b]))
    }
    fn args_opt(&mut self) -> Option<(Vec<u32>, Vec<u32>, Vec<u32>)> {
        if !self.is(K_PyLeftParen) { return Some((vec![1], vec![1], vec![1])); }
        let a = self.tok(); let m = if self.is(K_PyRightParen) { vec![1] } else { self.arglist()? }; let b = self.eat(K_PyRightParen)?; Some((a, m, b))
    }
    fn class_def(&mut self) -> O { let s = self.p; let t = self.tok(); let n = self.name()?; let (a, m, b) = self.args_opt()?; let c = self.eat(K_PyColon)?; let su = self.suite()?; Some(self.node(N_ClassDef, s, &[&t, &n, &a, &m, &b, &c, &su])) }
    fn decorated(&mut self) -> O {
        let s = self.p; let mut v = vec![];
        while self.is(K_PyMatrice) { let es = self.p; let t = self.tok(); let d = self.dotted_name()?; let (a, m, b) = self.args_opt()?; let n = self.eat(K_Newline)?; v.push(self.node(N_Decorator, es, &[&t, &d, &a, &m, &b, &n])); }
        let ds = self.node(N_Decorators, s, &[&list(&v, true)]);
        let r = match self.k() { K_PyClass => self.class_def()?, K_PyDef => self.func_def()?, K_PyAsync => { let s = self.p; let t = self.tok(); if !self.is(K_PyDef) { return None; } let f = self.func_def()?; self.node(N_AsyncStmt, s, &[&t, &f]) } _ => return None };
        Some(self.node(N_Decorated, s, &[&ds, &r]))
    }
    // -- whole inputs --
    fn newlines(&mut self) -> Vec<u32> { let mut v = vec![]; while self.is(K_Newline) { v.push(self.tok()); } list(&v, true) }
    fn eval_input(&mut self) -> O { let s = self.p; let e = self.testlist()?; let n = self.newlines(); let f = self.eat(K_EOF)?; Some(self.node(N_EvalInput, s, &[&e, &n, &f])) }
    fn func_type_input(&mut self) -> O {
        let s = self.p; let a = self.eat(K_PyLeftParen)?; let m = if self.is(K_PyRightParen) { vec![1] } else { self.type_list()? }; let b = self.eat(K_PyRightParen)?; let ar = self.eat(K_PyArrow)?; let r = self.test()?;
        let ft = self.node(N_FuncType, s, &[&a, &m, &b, &ar, &r]);
        let n = self.newlines(); let f = self.eat(K_EOF)?; Some(self.node(N_FuncTypeInput, s, &[&ft, &n, &f]))
    }
    fn type_list(&mut self) -> O {
        let s = self.p; let (mut v, mut seps) = (vec![], vec![]); let (mut mt, mut mn, mut pt, mut pn) = (None, None, None, None); let mut first = true;
        loop {
            if !first { if pt.is_some() || !self.is(K_PyComa) { break; } seps.push(self.tok()); }
            match self.k() { K_PyMul if mt.is_none() => { mt = Some(self.tok()); mn = Some(self.test()?); } K_PyPower => { pt = Some(self.tok()); pn = Some(self.test()?); } _ => v.push(self.test()?) }
            first = false;
        }
        Some(self.node(N_TypeList, s, &[&list(&v, true), &list(&seps, true), &opt(mt), &opt(mn), &opt(pt), &opt(pn)]))
    }
    fn file_input(&mut self) -> O {
        let s = self.p; let (mut v, mut nl) = (vec![], vec![]);
        loop { match self.k() { K_EOF => break, K_Newline => nl.push(self.tok()), _ => v.push(self.stmt()?) } }
        let f = self.tok(); Some(self.node(N_FileInput, s, &[&list(&v, true), &list(&nl, true), &f]))
    }
    fn single_input(&mut self) -> O {
        let s = self.p;
        match self.k() {
            K_Newline => { let n = self.tok(); Some(self.node(N_SingleInput, s, &[&[1], &n])) }
            K_MATCH => self.find(0),
            K_PyIf | K_PyWhile | K_PyFor | K_PyTry | K_PyWith | K_PyDef | K_PyClass | K_PyAsync | K_PyMatrice => { let c = self.compound()?; if !self.is(K_Newline) { return self.find(7); } let n = vec![2000 + self.p as u32]; Some(self.node(N_SingleInput, s, &[&c, &n])) }
            _ => { let c = self.simple()?; Some(self.node(N_SingleInput, s, &[&c, &[1]])) }
        }
    }
}
fn aug(k: u8) -> u32 { match k { K_PyPlusAssign => N_PlusAssignStmt, K_PyMinusAssign => N_MinusAssignStmt, K_PyMulAssign => N_MulAssignStmt, K_PyDivAssign => N_DivAssignStmt, K_PyFloorDivAssign => N_FloorDivAssignStmt, K_PyModuloAssign => N_ModuloAssignStmt, K_PyMatriceAssign => N_MatriceAssignStmt, K_PyPowerAssign => N_PowerAssignStmt, K_PyShiftLeftAssign => N_ShiftLeftAssignStmt, K_PyShiftRightAssign => N_ShiftRightAssignStmt, K_PyBitAndAssign => N_BitAndAssignStmt, K_PyBitOrAssign => N_BitOrAssignStmt, K_PyBitXorAssign => N_BitXorAssignStmt, _ => 0 } }

// ---- realisability of a token sequence as text ----------------------------------------------
/// false when no program text lexes to this sequence (used only before reporting)
fn realizable(upto: usize) -> bool {
    let mut st: Vec<u8> = vec![]; let mut depth = 0i32; let mut content = false; let mut i = 0; let mut nl = true; let mut indent_ok = true;
    while i < upto {
        let k = kind_at(i);
        match k {
            K_Newline => { if !st.is_empty() || !content { return false; } content = false; nl = true; indent_ok = true; i += 1; continue; }
            K_Indent => { if !indent_ok || !st.is_empty() { return false; } depth += 1; indent_ok = false; nl = false; i += 1; continue; }
            K_Dedent => { if !nl || depth == 0 { return false; } depth -= 1; indent_ok = false; i += 1; continue; }
            K_EOF => { return depth == 0 || content; }
            K_PyLeftParen | K_PyLeftBracket | K_PyLeftCurly => st.push(k),
            K_PyRightParen => { if st.pop() != Some(K_PyLeftParen) { return false; } }
            K_PyRightBracket => { if st.pop() != Some(K_PyLeftBracket) { return false; } }
            K_PyRightCurly => { if st.pop() != Some(K_PyLeftCurly) { return false; } }
            K_TypeComment => { let n = kind_at(i + 1); if !(n == K_Newline || n == K_EOF) || !st.is_empty() { return false; } }
            K_ERR => return true,
            _ => {}
        }
        content = true; nl = false; indent_ok = false; i += 1;
    }
    true
}

// ---- running one family ---------------------------------------------------------------------
pub const EVAL: u32 = 0; pub const FILE: u32 = 1; pub const SINGLE: u32 = 2; pub const FTYPE: u32 = 3;
pub const STRUCT: u32 = 1; pub const SPANS: u32 = 2; pub const FIDEL: u32 = 4; pub const NOREF: u32 = 8; pub const LEXERR: u32 = 16; pub const MUT: u32 = 32; pub const MUT2: u32 = 64;

fn parse(p: &mut PythonCoreParser, entry: u32) -> Result<Box<ASTNode>, String> {
    match entry { EVAL => p.parse_blocks_eval_input(), FILE => p.parse_blocks_file_input(), SINGLE => p.parse_blocks_single_input(), _ => p.parse_blocks_func_type_input() }
}
fn reference(entry: u32, spans: bool) -> (O, u32, usize) {
    let mut r = R { p: 0, spans, kf: 0 };
    let o = match entry { EVAL => r.eval_input(), FILE => r.file_input(), SINGLE => r.single_input(), _ => r.func_type_input() };
    (o, r.kf, r.p)
}
pub fn same(a: &[u32], b: &[u32]) -> bool { if a.len() != b.len() { return false; } for i in 0..a.len() { if a[i] != b[i] { return false; } } true }

/// runs the implementation on the token stream set up in G and checks it; `text` is the program in native replay
pub fn run(entry: u32, flags: u32, text: String) {
    let mut p = PythonCoreParser::new(Box::new(PythonCoreTokenizer::new(text)));
    let res = parse(&mut p, entry);
    let ok = res.is_ok();
    let reached = if lexed() { g().kinds.len() } else { g().next };
    let mut w = Walk { o: Vec::with_capacity(64), spans: flags & SPANS != 0, s: 0, e: 0, same: true, count: vec![0; maxt()] };
    if let Ok(t) = &res { walk(t, &mut w); sx_cover(1); } else { sx_cover(2); }
    if native() { sx_note(if ok { "accepted" } else { "rejected" }); }
    core::mem::forget(res); core::mem::forget(p);
    sx_obs(ok as u64); let mut h = 17u64; for x in w.o.iter() { h = h.wrapping_mul(1000003).wrapping_add(*x as u64); } sx_obs(h); if flags & LEXERR != 0 { sx_obs(if lexed() { 0 } else { g().after_err as u64 }); }
    if flags & LEXERR != 0 {
        // a single input ends with its line: what follows that line is not part of it
        let own = |s: &Stream, e: usize| -> bool { !(entry == SINGLE && e > 0 && kind_at(e - 1) == K_Newline) };
        if lexed() {
            if let Some(e) = g().kinds.iter().position(|k| *k == K_ERR) {
                let mine = if g().real { let mut m = true; if entry == SINGLE { for i in 0..e { if kind_at(i) == K_Newline { m = false; } } } m } else { own(g(), e) };
                if mine { sx_cover(3); sx_check(!ok, 13, 0); }
            }
            return;
        }
        let s = g();
        let mut e = 0; while e < s.slots.len() && !(s.slots[e].special && s.slots[e].kind == K_ERR) { e += 1; }
        if s.err_seen && own(s, e) { sx_cover(3); let id = if s.after_err > 0 { 14 } else { 13 }; if ok && realizable(reached) { sx_check(false, id, 0); } else { sx_check(true, id, 0); } }
        return;
    }
    if flags & FIDEL != 0 {
        if ok {
            // every token of the accepted text occurs exactly once in the tree
            let mut good = true; let (mut ind, mut ded) = (0i32, 0i32); let mut i = 0;
            let mut eofs = 0;
            let simple = match kind_at(0) { K_PyIf | K_PyWhile | K_PyFor | K_PyTry | K_PyWith | K_PyDef | K_PyClass | K_PyAsync | K_PyMatrice => false, _ => true };
            loop { let k = kind_at(i); if k == K_EOF || (entry == SINGLE && simple && i > 0 && kind_at(i - 1) == K_Newline) { break; } if k == K_Indent { ind += 1; } else if k == K_Dedent { ded += 1; } else if w.count[i] != 1 { good = false; } i += 1; if i >= maxt() { break; } }
            for x in w.o.iter() { if *x == 2900 { ind -= 1; } if *x == 2901 { ded -= 1; } if *x == 2950 { good = false; } }
            good = good && ind == 0 && ded == 0;
            if !good && !realizable(i) { return; }
            sx_check(good, 2, 0); sx_check(w.same, 3, 0);
        }
        return;
    }
    if flags & NOREF != 0 { if !lexed() { sx_check(g().calls as usize <= 2 * reached + 8, 12, 0); } return; }
    let (ro, kf, rp) = reference(entry, flags & SPANS != 0);
    if flags & SPANS != 0 { match &ro { Some(r) if ok => { if !same(&unspan(r), &unspan(&w.o)) { return; } } _ => return } }
    let good = match &ro { Some(r) => { sx_cover(4); ok && same(r, &w.o) } None => { sx_cover(5); !ok } };
    if native() { if let Some(r) = &ro { if !same(r, &w.o) { eprintln!("expected {:?}\n     got {:?}", show(r), show(&w.o)); } } else { eprintln!("expected rejection (kf {}), got {:?}", kf, show(&w.o)); } }
    if kf != 0 { sx_cover(6); sx_check(!ok, 9, kf); return; }
    if !good {
        let mut n = if rp > reached { rp + 1 } else { reached };
        if !realizable(n) { sx_cover(7); return; }
        // nothing in the text after the point where both sides stopped matters
        sx_check(false, 1, 0); return;
    }
    sx_check(true, 1, 0);
    if ok { sx_check(w.same, 3, 0); }
}
pub fn show(o: &[u32]) -> String {
    let mut s = String::new();
    for x in o { match *x { 1 => s += "- ", 2 => s += ") ", 3 => s += "# ", x if x >= 1000 && (x as usize) < 1000 + NNAMES.len() => { s += NNAMES[x as usize - 1000]; s += "( "; } x if x >= 2000 && x < 2900 => s += &format!("t{} ", x - 2000), 2900 => s += "IND ", 2901 => s += "DED ", x if x >= 3000 && x < 4000 => s += &format!("@{} ", x - 3000), x => s += &format!("{} ", x) } }
    s
}
/// program text for a kind sequence
pub fn render(ks: &[u8]) -> String {
    let mut s = String::new(); let mut depth = 0usize; let mut bol = true;
    for (i, k) in ks.iter().enumerate() {
        match *k { K_Newline => { s.push('\n'); bol = true; continue; } K_CRNL => { s.push('\r'); bol = true; continue; } K_Indent => { depth += 1; continue; } K_Dedent => { if depth > 0 { depth -= 1; } continue; } K_EOF => break, _ => {} }
        if bol { for _ in 0..depth { s += "    "; } bol = false; } else { s.push(' '); }
        s += &spell(*k);
    }
    s
}
pub fn spell(k: u8) -> String {
    (match k { K_AtomName => "nm", K_MATCH => "match", K_AtomNumber => "1", K_AtomString => "'s'", K_PSTR => "b's'", K_TypeComment => "# type: t", K_ERR => "$",
        K_PyFalse => "False", K_PyNone => "None", K_PyTrue => "True",
        K_PyPlus => "+", K_PyMinus => "-", K_PyMul => "*", K_PyPower => "**", K_PyDiv => "/", K_PyFloorDiv => "//", K_PyModulo => "%", K_PyMatrice => "@", K_PyShiftLeft => "<<", K_PyShiftRight => ">>",
        K_PyBitAnd => "&", K_PyBitOr => "|", K_PyBitXor => "^", K_PyBitInvert => "~", K_PyColonAssign => ":=", K_PyLess => "<", K_PyGreater => ">", K_PyLessEqual => "<=", K_PyGreaterEqual => ">=", K_PyEqual => "==", K_PyNotEqual => "!=",
        K_PyLeftParen => "(", K_PyLeftBracket => "[", K_PyLeftCurly => "{", K_PyRightParen => ")", K_PyRightBracket => "]", K_PyRightCurly => "}", K_PyComa => ",", K_PyColon => ":", K_PyDot => ".", K_PySemiColon => ";", K_PyAssign => "=", K_PyArrow => "->",
        K_PyPlusAssign => "+=", K_PyMinusAssign => "-=", K_PyMulAssign => "*=", K_PyDivAssign => "/=", K_PyFloorDivAssign => "//=", K_PyModuloAssign => "%=", K_PyMatriceAssign => "@=", K_PyBitAndAssign => "&=", K_PyBitOrAssign => "|=", K_PyBitXorAssign => "^=", K_PyShiftLeftAssign => "<<=", K_PyShiftRightAssign => ">>=", K_PyPowerAssign => "**=", K_PyElipsis => "...",
        k => return KNAMES[k as usize].trim_start_matches("Py").to_lowercase() }).to_string()
}
/// run a family symbolically, or natively on the kind sequence given by recorded choices
pub fn family(entry: u32, flags: u32, fam: &'static [Sl], any: &'static [u8]) {
    setup(fam); g().any = any; g().muts = if flags & MUT2 != 0 { 2 } else if flags & MUT != 0 { 1 } else { 0 };
    if native() {
        let s = g();
        let mut ks: Vec<u8> = vec![];
        while ks.last() != Some(&K_EOF) { match next_alpha() { Some(al) => { let p = if al.len() == 1 { 0 } else { sx_pick(al.len() as u32) as usize }; ks.push(al[p]); } None => ks.push(K_EOF) } }
        let text = render(&ks); let ks = ks.iter().map(|k| canon(*k)).collect();
        native_run(entry, flags, text, Some(ks)); return;
    }
    run(entry, flags, String::new());
}
pub fn native_run(entry: u32, flags: u32, text: String, want: Option<Vec<u8>>) {
    if native() { eprintln!("text {:?}", text); }
    let mut t = PythonCoreTokenizer::new(text.clone());
    let s = g();
    loop {
        match t.get_symbol() {
            Err(e) => { core::mem::forget(e); s.kinds.push(K_ERR); s.pos.push(t.get_position()); s.starts.push(u32::MAX); s.texts.push(0); break; }
            Ok(x) => { let (k, st, _) = tok_info(&x); let k = match &*x { Token::AtomName(_, _, _, n) if n.as_str() == "match" => { sx_cover(90); K_MATCH } _ => k };
                s.kinds.push(k); s.pos.push(t.get_position()); s.starts.push(if k == K_Indent || k == K_Dedent { u32::MAX } else { st }); s.texts.push(content(&x)); core::mem::forget(x); if k == K_EOF { break; } }
        }
        if s.kinds.len() > 4000 { break; }
    }
    core::mem::forget(t);
    if let Some(w) = want {
        // the rendered text must lex to the intended tokens, otherwise this is not a counterexample
        let mut m = s.kinds.len() == w.len() || s.kinds.last() == Some(&K_ERR);
        for i in 0..s.kinds.len().min(w.len()) { if s.kinds[i] != w[i] { m = false; } }
        if !m { sx_note("unrealizable"); eprintln!("lexes to {:?}, wanted {:?}", s.kinds, w); return; }
    }
    run(entry, flags, text);
}
/// the real tokenizer and the real parser together on a symbolic text
pub fn end_to_end(entry: u32, flags: u32, text: String) { setup(&[]); g().real = true; native_run(entry, flags, text, None); }
pub fn outcome(entry: u32, text: String) -> String {
    let mut p = PythonCoreParser::new(Box::new(PythonCoreTokenizer::new(text)));
    match parse(&mut p, entry) { Ok(t) => { let mut w = Walk { o: vec![], spans: false, s: 0, e: 0, same: true, count: vec![] }; setup(&[]); walk(&t, &mut w); format!("accepted {}", show(&w.o)) } Err(e) => format!("rejected {}", e) }
}
