//! Textual LLVM IR reader. Function bodies are decoded lazily, on first call.
use std::cell::RefCell;
use crate::fx::HashMap;
use std::rc::Rc;
use crate::term::{BOp, COp};

#[derive(Clone, PartialEq, Debug)]
pub enum Ty { Void, Int(u32), Ptr, Float(u32), Arr(u64, Rc<Ty>), Struct(bool, Rc<Vec<Ty>>), Vec(u64, Rc<Ty>), Other }

impl Ty {
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(w) => { let b = ((*w as u64 + 7) / 8).next_power_of_two(); b.min(16) }
            Ty::Ptr => 8, Ty::Float(w) => *w as u64 / 8,
            Ty::Arr(_, t) => t.align(),
            Ty::Struct(p, f) => if *p { 1 } else { f.iter().map(|t| t.align()).max().unwrap_or(1) },
            Ty::Vec(..) => { self.size().next_power_of_two().min(64) }
            _ => 1,
        }
    }
    pub fn store(&self) -> u64 { match self { Ty::Int(w) => (*w as u64 + 7) / 8, _ => self.size() } }
    pub fn size(&self) -> u64 {
        match self {
            Ty::Void | Ty::Other => 0,
            Ty::Int(w) => { let b = (*w as u64 + 7) / 8; if b <= 16 { b.next_power_of_two() } else { (b + 15) / 16 * 16 } }
            Ty::Ptr => 8, Ty::Float(w) => *w as u64 / 8,
            Ty::Arr(n, t) => n * t.size(),
            Ty::Struct(p, f) => { let mut o = 0; for t in f.iter() { if !*p { let a = t.align(); o = (o + a - 1) / a * a; } o += t.size(); } let a = self.align(); (o + a - 1) / a * a }
            Ty::Vec(n, t) => match &**t { Ty::Int(w) => (n * *w as u64 + 7) / 8, t => n * t.size() },
        }
    }
    pub fn field(&self, i: u64) -> (u64, Ty) {
        match self {
            Ty::Struct(p, f) => { let mut o = 0; for (k, t) in f.iter().enumerate() { if !*p { let a = t.align(); o = (o + a - 1) / a * a; } if k as u64 == i { return (o, t.clone()); } o += t.size(); } panic!("field") }
            Ty::Arr(_, t) | Ty::Vec(_, t) => (t.size() * i, (**t).clone()),
            _ => panic!("field of {:?}", self),
        }
    }
    pub fn nfields(&self) -> u64 { match self { Ty::Struct(_, f) => f.len() as u64, Ty::Arr(n, _) | Ty::Vec(n, _) => *n, _ => 0 } }
    /// bit width of a scalar
    pub fn w(&self) -> u32 { match self { Ty::Int(w) => *w, Ty::Ptr => 64, Ty::Float(w) => *w, _ => 0 } }
    pub fn scalar(&self) -> bool { matches!(self, Ty::Int(_) | Ty::Ptr | Ty::Float(_)) }
}

#[derive(Clone, Debug)]
pub enum Cv { I(u128), A(Rc<Vec<Cv>>) }

#[derive(Clone, Debug)]
pub enum Op { R(u32), C(u64), K(Rc<Cv>, Ty) }

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Cast { Trunc, ZExt, SExt, Same }

#[derive(Debug)]
pub enum Callee { Direct(u32), Ind(Op) }

#[derive(Debug)]
pub enum I {
    Bin(BOp, Ty, u32, Op, Op),
    Cmp(COp, Ty, u32, Op, Op),
    Cast(Cast, Ty, Ty, u32, Op),
    Load(Ty, u32, Op),
    Store(Ty, Op, Op),
    Gep(u32, Op, i64, Vec<(Op, i64, u32)>),
    Select(Ty, u32, Op, Op, Op, bool),
    Call { dst: Option<u32>, ret: Ty, callee: Callee, args: Vec<(Ty, Op)>, normal: Option<u32> },
    ExtractValue(u32, Op, Vec<u64>),
    InsertValue(u32, Op, Ty, Op, Vec<u64>),
    Alloca(u32, u64),
    Freeze(u32, Op),
    ExtractElt(u32, Op, Op), InsertElt(u32, Op, Op, Op), Shuffle(u32, Op, Op, Vec<i64>, u64),
    Rmw(String, Ty, u32, Op, Op), CmpXchg(Ty, u32, Op, Op, Op),
    Nop,
    Br(u32), CondBr(Op, u32, u32), Switch(Ty, Op, u32, Vec<(u64, u32)>), Ret(Option<Op>, Ty), Unreachable,
    Unsupported(String),
}

pub struct Block { pub phis: Vec<(u32, Ty, Vec<(u32, Op)>)>, pub ins: Vec<I> }
pub struct Func { pub name: String, pub id: u32, pub params: Vec<u32>, pub nslots: u32, pub frame: u64, pub blocks: Vec<Block>, pub ret: Ty }

pub struct Global { pub name: String, pub ty: Ty, pub init: Option<(usize, usize)>, pub size: u64 }

pub struct Module {
    pub text: Rc<String>,
    pub globals: Vec<Global>, pub gmap: HashMap<String, u32>,
    pub fnames: RefCell<Vec<String>>, pub fmap: RefCell<HashMap<String, u32>>, fpos: HashMap<String, (usize, usize)>,
    fcache: RefCell<HashMap<u32, Rc<Func>>>, aliases: HashMap<String, String>,
}

pub const GBASE: u64 = 0x1000_0000_0000;
pub const FBASE: u64 = 0x0200_0000_0000;
pub const SHIFT: u32 = 20;

pub struct P<'a> { s: &'a [u8], pub i: usize, end: usize }
#[derive(Clone, Debug, PartialEq)]
pub enum Tk { Word(String), Num(String), Loc(String), Glob(String), Str(Vec<u8>, bool), Meta(String), Attr, Pun(char), Eof }

fn idc(c: u8) -> bool { c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-' }

impl<'a> P<'a> {
    pub fn new(s: &'a str, a: usize, b: usize) -> P<'a> { P { s: s.as_bytes(), i: a, end: b } }
    fn ws(&mut self) { loop { while self.i < self.end && self.s[self.i].is_ascii_whitespace() { self.i += 1; } if self.i < self.end && self.s[self.i] == b';' { while self.i < self.end && self.s[self.i] != b'\n' { self.i += 1; } } else { break; } } }
    fn qstr(&mut self) -> Vec<u8> {
        self.i += 1; let mut o = vec![];
        while self.s[self.i] != b'"' {
            if self.s[self.i] == b'\\' {
                if self.s[self.i + 1] == b'\\' { o.push(b'\\'); self.i += 2; }
                else { let h = std::str::from_utf8(&self.s[self.i + 1..self.i + 3]).unwrap(); o.push(u8::from_str_radix(h, 16).unwrap()); self.i += 3; }
            } else { o.push(self.s[self.i]); self.i += 1; }
        }
        self.i += 1; o
    }
    pub fn next(&mut self) -> Tk {
        self.ws();
        if self.i >= self.end { return Tk::Eof; }
        let c = self.s[self.i];
        match c {
            b'%' | b'@' => {
                self.i += 1;
                let n = if self.s[self.i] == b'"' { String::from_utf8_lossy(&self.qstr()).into_owned() } else { let st = self.i; while self.i < self.end && idc(self.s[self.i]) { self.i += 1; } String::from_utf8_lossy(&self.s[st..self.i]).into_owned() };
                if c == b'%' { Tk::Loc(n) } else { Tk::Glob(n) }
            }
            b'"' => Tk::Str(self.qstr(), false),
            b'!' => { self.i += 1; let st = self.i; while self.i < self.end && idc(self.s[self.i]) { self.i += 1; } Tk::Meta(String::from_utf8_lossy(&self.s[st..self.i]).into_owned()) }
            b'#' => { self.i += 1; while self.i < self.end && self.s[self.i].is_ascii_digit() { self.i += 1; } Tk::Attr }
            b'c' if self.i + 1 < self.end && self.s[self.i + 1] == b'"' => { self.i += 1; Tk::Str(self.qstr(), true) }
            _ if c.is_ascii_digit() || (c == b'-' && self.s[self.i + 1].is_ascii_digit()) => { let st = self.i; self.i += 1; while self.i < self.end && (self.s[self.i].is_ascii_alphanumeric() || self.s[self.i] == b'.' || ((self.s[self.i] == b'+' || self.s[self.i] == b'-') && self.s[self.i-1] == b'e')) { self.i += 1; } Tk::Num(String::from_utf8_lossy(&self.s[st..self.i]).into_owned()) }
            _ if c.is_ascii_alphabetic() || c == b'_' || c == b'$' || c == b'.' => { let st = self.i; while self.i < self.end && idc(self.s[self.i]) { self.i += 1; } Tk::Word(String::from_utf8_lossy(&self.s[st..self.i]).into_owned()) }
            _ => { self.i += 1; if c == b'.' && &self.s[self.i..self.i + 2] == b".." { self.i += 2; } Tk::Pun(c as char) }
        }
    }
    pub fn peek(&mut self) -> Tk { let s = self.i; let t = self.next(); self.i = s; t }
    fn eat(&mut self, c: char) -> bool { let s = self.i; if self.next() == Tk::Pun(c) { true } else { self.i = s; false } }
    fn eatw(&mut self, w: &str) -> bool { let s = self.i; if let Tk::Word(x) = self.next() { if x == w { return true; } } self.i = s; false }
    fn expect(&mut self, c: char) { let s = self.i; let t = self.next(); if t != Tk::Pun(c) { panic!("expected {} got {:?} at `{}`", c, t, String::from_utf8_lossy(&self.s[s.saturating_sub(80)..(s + 120).min(self.s.len())])); } }
    fn balanced(&mut self) { // at '('
        self.expect('('); let mut d = 1; while d > 0 { match self.next() { Tk::Pun('(') => d += 1, Tk::Pun(')') => d -= 1, Tk::Eof => panic!("eof"), _ => {} } }
    }
    fn tybase(w: &str) -> Option<Ty> {
        Some(match w {
            "void" => Ty::Void, "ptr" => Ty::Ptr, "float" => Ty::Float(32), "double" => Ty::Float(64), "half" => Ty::Float(16), "fp128" => Ty::Float(128), "x86_fp80" => Ty::Float(128),
            "metadata" | "label" | "token" => Ty::Other,
            _ => { if w.len() > 1 && w.starts_with('i') { if let Ok(n) = w[1..].parse::<u32>() { return Some(Ty::Int(n)); } } return None; }
        })
    }
    pub fn ty(&mut self) -> Ty {
        let s = self.i;
        let t = match self.next() {
            Tk::Word(w) => match Self::tybase(&w) { Some(t) => { if t == Ty::Ptr && self.eatw("addrspace") { self.balanced(); } t }, None => panic!("bad type {} at {}", w, String::from_utf8_lossy(&self.s[s.saturating_sub(60)..s + 60])) },
            Tk::Pun('[') => { let n = self.num(); assert!(self.eatw("x")); let t = self.ty(); self.expect(']'); Ty::Arr(n as u64, Rc::new(t)) }
            Tk::Pun('{') => { let f = self.tylist('}'); Ty::Struct(false, Rc::new(f)) }
            Tk::Pun('<') => {
                if self.eat('{') { let f = self.tylist('}'); self.expect('>'); Ty::Struct(true, Rc::new(f)) }
                else { let n = self.num(); assert!(self.eatw("x")); let t = self.ty(); self.expect('>'); Ty::Vec(n as u64, Rc::new(t)) }
            }
            t => panic!("bad type token {:?} at {}", t, String::from_utf8_lossy(&self.s[s.saturating_sub(60)..(s + 60).min(self.s.len())])),
        };
        t
    }
    fn tylist(&mut self, close: char) -> Vec<Ty> { let mut f = vec![]; if self.eat(close) { return f; } loop { f.push(self.ty()); if self.eat(close) { return f; } self.expect(','); } }
    fn num(&mut self) -> i128 { match self.next() { Tk::Num(n) => parse_int(&n), t => panic!("num expected, {:?}", t) } }
    fn skip_attrs(&mut self) {
        // parameter / return attributes
        loop {
            let s = self.i;
            match self.next() {
                Tk::Attr => {}
                Tk::Str(_, false) => { if self.eat('=') { self.next(); } }
                Tk::Word(w) => {
                    if w == "align" { if self.peek() == Tk::Pun('(') { self.balanced(); } else { self.num(); } continue; }
                    if matches!(w.as_str(), "dso_local" | "noundef" | "nonnull" | "noalias" | "nofree" | "nest" | "zeroext" | "signext" | "inreg" | "readonly" | "readnone" | "writeonly" | "returned" | "allocptr" | "allocalign" | "immarg" | "noext" | "writable" | "dead_on_unwind" | "swiftself" | "nocapture" | "noreturn"
                        | "captures" | "dereferenceable" | "dereferenceable_or_null" | "range" | "sret" | "byval" | "elementtype" | "initializes" | "dead_on_return" | "nofpclass" | "preallocated" | "inalloca" | "byref" | "nosync") {
                        if self.peek() == Tk::Pun('(') { self.balanced(); }
                        continue;
                    }
                    self.i = s; return;
                }
                _ => { self.i = s; return; }
            }
        }
    }
}
fn parse_int(n: &str) -> i128 {
    n.parse::<i128>().or_else(|_| n.parse::<u128>().map(|x| x as i128)).unwrap_or(0)
}

impl Module {
    pub fn load(path: &str) -> Module {
        let text = Rc::new(std::fs::read_to_string(path).expect("read ll"));
        let mut m = Module { text: text.clone(), globals: vec![], gmap: HashMap::default(), fnames: RefCell::new(vec![]), fmap: RefCell::new(HashMap::default()), fpos: HashMap::default(), fcache: RefCell::new(HashMap::default()), aliases: HashMap::default() };
        let b = text.as_bytes();
        let mut pos = 0;
        while pos < b.len() {
            let eol = memchr(b, pos, b'\n');
            if b[pos] == b'@' {
                let mut p = P::new(&text, pos, eol);
                let name = match p.next() { Tk::Glob(n) => n, _ => unreachable!() };
                p.expect('=');
                let mut ext = false; let mut alias = false;
                loop {
                    match p.next() {
                        Tk::Word(w) => match w.as_str() { "constant" | "global" => break, "external" | "extern_weak" => ext = true, "alias" => { alias = true; break; }
                            "thread_local" => { if p.peek() == Tk::Pun('(') { p.balanced(); } } "addrspace" => p.balanced(), _ => {} },
                        Tk::Eof => break, _ => {}
                    }
                }
                if alias { let _ = p.ty(); p.expect(','); let _ = p.ty(); if let Tk::Glob(t) = p.next() { m.aliases.insert(name, t); } }
                else {
                    let ty = p.ty();
                    let id = m.globals.len() as u32;
                    let size = ty.size();
                    m.globals.push(Global { name: name.clone(), ty, init: if ext { None } else { Some((p.i, eol)) }, size });
                    m.gmap.insert(name, id);
                }
                pos = eol + 1;
            } else if text[pos..].starts_with("define ") || text[pos..].starts_with("declare ") {
                let def = b[pos + 2] == b'f';
                let mut k = pos; while b[k] != b'@' { k += 1; }
                let mut p = P::new(&text, k, eol);
                let name = match p.next() { Tk::Glob(n) => n, _ => unreachable!() };
                m.fid(&name);
                if def {
                    // end at line "}"
                    let mut e = eol + 1;
                    loop { let l = memchr(b, e, b'\n'); if b[e] == b'}' { e = l; break; } e = l + 1; }
                    m.fpos.insert(name, (pos, e));
                    pos = e + 1;
                } else { pos = eol + 1; }
            } else { pos = eol + 1; }
        }
        m
    }
    pub fn fid(&self, name: &str) -> u32 {
        if let Some(i) = self.fmap.borrow().get(name) { return *i; }
        let mut v = self.fnames.borrow_mut(); let i = v.len() as u32; v.push(name.to_string()); self.fmap.borrow_mut().insert(name.to_string(), i); i
    }
    pub fn fname(&self, id: u32) -> String { self.fnames.borrow()[id as usize].clone() }
    pub fn has_body(&self, id: u32) -> bool { self.fpos.contains_key(&self.resolve(&self.fname(id))) }
    fn resolve(&self, n: &str) -> String { let mut n = n.to_string(); while let Some(x) = self.aliases.get(&n) { n = x.clone(); } n }
    pub fn defined(&self) -> Vec<String> { self.fpos.keys().cloned().collect() }
    fn gaddr(&self, n: &str) -> u64 {
        let n = self.resolve(n);
        if let Some(g) = self.gmap.get(&n) { return GBASE + ((*g as u64) << SHIFT); }
        FBASE + ((self.fid(&n) as u64) << 4)
    }
    /// constant of a given type
    fn cval(&self, p: &mut P, ty: &Ty) -> Cv {
        let s = p.i;
        match p.next() {
            Tk::Num(n) => { if let Ty::Float(w) = ty { return Cv::I(parse_float(&n, *w)); } Cv::I((parse_int(&n) as u128) & crate::term::maskw(ty.w())) }
            Tk::Glob(n) => Cv::I(self.gaddr(&n) as u128),
            Tk::Str(v, true) => Cv::A(Rc::new(v.into_iter().map(|b| Cv::I(b as u128)).collect())),
            Tk::Pun('[') => self.clist(p, ']'),
            Tk::Pun('{') => self.clist(p, '}'),
            Tk::Pun('<') => { if p.eat('{') { let r = self.clist(p, '}'); p.expect('>'); r } else { self.clist(p, '>') } }
            Tk::Word(w) => match w.as_str() {
                "true" => Cv::I(1), "false" => Cv::I(0),
                "null" => Cv::I(0), "none" => Cv::I(0),
                "undef" | "poison" | "zeroinitializer" => zero(ty),
                "splat" => { p.expect('('); let t = p.ty(); let v = self.cval(p, &t); p.expect(')'); Cv::A(Rc::new(vec![v; ty.nfields() as usize])) }
                "getelementptr" => {
                    while let Tk::Word(w) = p.peek() { if matches!(w.as_str(), "inbounds" | "nuw" | "nusw") { p.next(); } else if w == "inrange" { p.next(); p.balanced(); } else { break; } }
                    p.expect('('); let ety = p.ty(); p.expect(',');
                    let pt = p.ty(); let base = self.cval(p, &pt);
                    let mut a = match base { Cv::I(x) => x as u64, _ => panic!() };
                    let mut cur = ety; let mut first = true;
                    while p.eat(',') {
                        let it = p.ty(); let iv = match self.cval(p, &it) { Cv::I(x) => crate::term::sext(x, it.w()) as i64, _ => panic!() };
                        if first { a = a.wrapping_add((cur.size() as i64).wrapping_mul(iv) as u64); first = false; } else { let (o, t) = match &cur { Ty::Arr(_, t) => ((t.size() as i64 * iv) as u64, (**t).clone()), _ => cur.field(iv as u64) }; a = a.wrapping_add(o); cur = t; }
                    }
                    p.expect(')'); Cv::I(a as u128)
                }
                "ptrtoint" | "inttoptr" | "bitcast" | "trunc" | "ptrtoaddr" | "addrspacecast" => { p.expect('('); let t = p.ty(); let v = self.cval(p, &t); assert!(p.eatw("to")); let t2 = p.ty(); p.expect(')'); match v { Cv::I(x) => Cv::I(x & crate::term::maskw(t2.w())), v => v } }
                "sub" | "add" | "xor" | "and" | "or" | "mul" => {
                    while let Tk::Word(_) = p.peek() { p.next(); }
                    p.expect('('); let t = p.ty(); let a = self.cval(p, &t); p.expect(','); let t2 = p.ty(); let b = self.cval(p, &t2); p.expect(')');
                    match (a, b) { (Cv::I(a), Cv::I(b)) => Cv::I(crate::term::bin_c(match w.as_str() { "sub" => BOp::Sub, "add" => BOp::Add, "xor" => BOp::Xor, "and" => BOp::And, "or" => BOp::Or, _ => BOp::Mul }, a, b, t.w())), _ => panic!() }
                }
                _ => { if w.starts_with("f0x") || w.starts_with("inf") || w.starts_with("nan") { return Cv::I(0); } panic!("const word {} at {}", w, String::from_utf8_lossy(&p.s[s.saturating_sub(60)..s + 60])) }
            },
            t => panic!("const {:?} at {}", t, String::from_utf8_lossy(&p.s[s.saturating_sub(60)..(s + 60).min(p.s.len())])),
        }
    }
    fn clist(&self, p: &mut P, close: char) -> Cv {
        let mut v = vec![]; if p.eat(close) { return Cv::A(Rc::new(v)); }
        loop { let t = p.ty(); v.push(self.cval(p, &t)); if p.eat(close) { break; } p.expect(','); }
        Cv::A(Rc::new(v))
    }
    pub fn ginit(&self, g: u32) -> Option<Vec<u8>> {
        let gl = &self.globals[g as usize];
        let (a, b) = gl.init?;
        let mut p = P::new(&self.text, a, b);
        let v = self.cval(&mut p, &gl.ty);
        let mut out = vec![0u8; gl.size as usize];
        put(&v, &gl.ty, 0, &mut out);
        Some(out)
    }
    pub fn func(&self, id: u32) -> Option<Rc<Func>> {
        if let Some(f) = self.fcache.borrow().get(&id) { return Some(f.clone()); }
        let name = self.resolve(&self.fname(id));
        let (a, b) = *self.fpos.get(&name)?;
        let f = Rc::new(FP { m: self, slots: HashMap::default(), blocks: HashMap::default(), frame: 0 }.parse(&name, id, a, b));
        self.fcache.borrow_mut().insert(id, f.clone());
        Some(f)
    }
}
pub fn put(v: &Cv, ty: &Ty, off: usize, out: &mut [u8]) {
    match (v, ty) {
        (Cv::I(x), t) if t.scalar() => { let n = t.store() as usize; for k in 0..n { out[off + k] = (*x >> (8 * k)) as u8; } }
        (Cv::A(f), t) => { for (i, e) in f.iter().enumerate() { let (o, ft) = t.field(i as u64); put(e, &ft, off + o as usize, out); } }
        (Cv::I(0), _) => {}
        _ => panic!("put"),
    }
}
pub fn zero(ty: &Ty) -> Cv { if ty.scalar() || ty.nfields() == 0 { Cv::I(0) } else if let Ty::Arr(n, _) = ty { if *n > 4096 { return Cv::I(0); } Cv::A(Rc::new((0..ty.nfields()).map(|i| zero(&ty.field(i).1)).collect())) } else { Cv::A(Rc::new((0..ty.nfields()).map(|i| zero(&ty.field(i).1)).collect())) } }
fn parse_float(n: &str, w: u32) -> u128 {
    if let Some(h) = n.strip_prefix("0x") { if let Ok(b) = u64::from_str_radix(h, 16) { return if w == 32 { (f64::from_bits(b) as f32).to_bits() as u128 } else { b as u128 }; } return 0; }
    let f: f64 = n.parse().unwrap_or(0.0); if w == 32 { (f as f32).to_bits() as u128 } else { f.to_bits() as u128 }
}
fn memchr(b: &[u8], from: usize, c: u8) -> usize { let mut i = from; while i < b.len() && b[i] != c { i += 1; } i }

struct FP<'m> { m: &'m Module, slots: HashMap<String, u32>, blocks: HashMap<String, u32>, frame: u64 }
impl<'m> FP<'m> {
    fn slot(&mut self, n: &str) -> u32 { let k = self.slots.len() as u32; *self.slots.entry(n.to_string()).or_insert(k) }
    fn blk(&mut self, n: &str) -> u32 { match self.blocks.get(n) { Some(b) => *b, None => panic!("no block {}", n) } }
    fn val(&mut self, p: &mut P, ty: &Ty) -> Op {
        let s = p.i;
        if let Tk::Loc(n) = p.next() { return Op::R(self.slot(&n)); }
        p.i = s;
        match self.m.cval(p, ty) { Cv::I(x) if x <= u64::MAX as u128 && (ty.scalar()) && ty.w() <= 64 => Op::C(x as u64), c => Op::K(Rc::new(c), ty.clone()) }
    }
    fn tyval(&mut self, p: &mut P) -> (Ty, Op) { let t = p.ty(); p.skip_attrs(); let v = if t == Ty::Other { p.next(); Op::C(0) } else { self.val(p, &t) }; (t, v) }
    fn label(&mut self, p: &mut P) -> u32 { assert!(p.eatw("label")); match p.next() { Tk::Loc(n) => self.blk(&n), t => panic!("{:?}", t) } }

    fn parse(mut self, name: &str, id: u32, a: usize, b: usize) -> Func {
        let text = self.m.text.clone();
        let by = text.as_bytes();
        // header
        let eol = memchr(by, a, b'\n');
        let mut p = P::new(&text, a, eol);
        p.next(); // define
        loop { // linkage etc. until type
            let s = p.i;
            match p.next() {
                Tk::Word(w) => { if P::tybase(&w).is_some() { p.i = s; break; } if w == "align" { p.num(); } if p.peek() == Tk::Pun('(') { p.balanced(); } }
                Tk::Pun('{') | Tk::Pun('[') | Tk::Pun('<') => { p.i = s; break; }
                _ => {}
            }
        }
        let ret = p.ty();
        p.next(); // name
        p.expect('(');
        let mut params = vec![]; let mut unnamed = 0;
        if !p.eat(')') {
            loop {
                if p.peek() == Tk::Word("...".to_string()) { p.next(); p.expect(')'); break; }
                let _t = p.ty(); p.skip_attrs();
                let n = match p.peek() { Tk::Loc(n) => { p.next(); if let Ok(k) = n.parse::<u32>() { unnamed = k + 1; } n } _ => { let n = format!("{}", unnamed); unnamed += 1; n } };
                params.push(self.slot(&n));
                if p.eat(')') { break; } p.expect(',');
            }
        }
        // find block labels
        let mut lines: Vec<(usize, usize)> = vec![]; let mut i = eol + 1;
        while i < b { let e = memchr(by, i, b'\n'); lines.push((i, e)); i = e + 1; }
        let mut first = true; let mut nb = 0;
        for (s, e) in &lines {
            let l = &text[*s..*e];
            if l.is_empty() || l.starts_with(' ') || l.starts_with('}') { if first && !l.is_empty() && !l.starts_with('}') { self.blocks.insert(format!("{}", unnamed), 0); nb = 1; first = false; } continue; }
            let lab = if l.starts_with('"') { let mut q = P::new(&text, *s, *e); match q.next() { Tk::Str(v, _) => String::from_utf8_lossy(&v).into_owned(), _ => panic!() } } else { match l.find(':') { Some(k) => l[..k].to_string(), None => continue } };
            self.blocks.insert(lab, nb); nb += 1; first = false;
        }
        let mut blocks: Vec<Block> = vec![]; let mut cur = Block { phis: vec![], ins: vec![] }; let mut started = false;
        let mut li = 0;
        while li < lines.len() {
            let (s, mut e) = lines[li]; li += 1;
            let l = &text[s..e];
            if l.is_empty() || l.starts_with('}') { continue; }
            if !l.starts_with(' ') { if started { blocks.push(cur); cur = Block { phis: vec![], ins: vec![] }; } started = true; continue; }
            started = true;
            let tl = l.trim_start();
            if (tl.starts_with("switch ") || tl.contains(" = landingpad") || tl.starts_with("invoke") || tl.contains("= invoke")) || tl.ends_with('[') {
                // multi-line
                if tl.starts_with("switch ") { while !text[lines[li - 1].0..lines[li - 1].1].trim_start().starts_with(']') && !text[lines[li-1].0..lines[li-1].1].contains(" ]") { li += 1; } e = lines[li - 1].1; }
                else if tl.contains("invoke") { while !text[s..lines[li - 1].1].contains("unwind label") { li += 1; } e = lines[li - 1].1; }
                else if tl.contains("landingpad") { while li < lines.len() && { let x = text[lines[li].0..lines[li].1].trim_start(); x.starts_with("cleanup") || x.starts_with("catch") || x.starts_with("filter") } { li += 1; } }
            }
            let mut p = P::new(&text, s, e);
            self.inst(&mut p, &mut cur, tl);
        }
        blocks.push(cur);
        Func { name: name.to_string(), id, params, nslots: self.slots.len() as u32, frame: self.frame, blocks, ret }
    }
    fn inst(&mut self, p: &mut P, cur: &mut Block, line: &str) {
        let s0 = p.i;
        let mut dst = None;
        if let Tk::Loc(n) = p.next() { dst = Some(self.slot(&n)); p.expect('='); } else { p.i = s0; }
        let mut w = match p.next() { Tk::Word(w) => w, t => panic!("inst {:?} in {}", t, line) };
        while w == "tail" || w == "musttail" || w == "notail" { w = match p.next() { Tk::Word(w) => w, t => panic!("{:?}", t) }; }
        let d = dst.unwrap_or(u32::MAX);
        let skipflags = |p: &mut P| { loop { let s = p.i; match p.next() { Tk::Word(x) if matches!(x.as_str(), "nuw" | "nsw" | "exact" | "disjoint" | "inbounds" | "nusw" | "nneg" | "samesign" | "fast" | "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc" | "volatile" | "atomic" | "weak") => {} Tk::Word(x) if x == "inrange" => p.balanced(), _ => { p.i = s; break; } } } };
        let bop = |w: &str| Some(match w { "add" => BOp::Add, "sub" => BOp::Sub, "mul" => BOp::Mul, "udiv" => BOp::UDiv, "sdiv" => BOp::SDiv, "urem" => BOp::URem, "srem" => BOp::SRem, "and" => BOp::And, "or" => BOp::Or, "xor" => BOp::Xor, "shl" => BOp::Shl, "lshr" => BOp::LShr, "ashr" => BOp::AShr, _ => return None });
        if let Some(op) = bop(&w) {
            skipflags(p); let t = p.ty(); let a = self.val(p, &t); p.expect(','); let b = self.val(p, &t);
            cur.ins.push(I::Bin(op, t, d, a, b)); return;
        }
        let ins = match w.as_str() {
            "icmp" => {
                skipflags(p);
                let c = match p.next() { Tk::Word(x) => match x.as_str() { "eq" => COp::Eq, "ne" => COp::Ne, "ult" => COp::Ult, "ule" => COp::Ule, "ugt" => COp::Ugt, "uge" => COp::Uge, "slt" => COp::Slt, "sle" => COp::Sle, "sgt" => COp::Sgt, "sge" => COp::Sge, x => panic!("{}", x) }, _ => panic!() };
                let t = p.ty(); let a = self.val(p, &t); p.expect(','); let b = self.val(p, &t); I::Cmp(c, t, d, a, b)
            }
            "zext" | "sext" | "trunc" | "bitcast" | "ptrtoint" | "inttoptr" | "ptrtoaddr" | "addrspacecast" => {
                skipflags(p); let t = p.ty(); let a = self.val(p, &t); assert!(p.eatw("to")); let t2 = p.ty();
                let k = match w.as_str() { "zext" => Cast::ZExt, "sext" => Cast::SExt, "trunc" => Cast::Trunc, "bitcast" => Cast::Same, _ => { if t2.w() < t.w() { Cast::Trunc } else if t2.w() > t.w() { Cast::ZExt } else { Cast::Same } } };
                if k == Cast::Same && t != t2 && !(t.scalar() && t2.scalar()) { I::Unsupported(line.to_string()) } else { I::Cast(k, t, t2, d, a) }
            }
            "load" => { skipflags(p); let t = p.ty(); p.expect(','); let (_, a) = self.tyval(p); I::Load(t, d, a) }
            "store" => { skipflags(p); let (t, v) = self.tyval(p); p.expect(','); let (_, a) = self.tyval(p); I::Store(t, v, a) }
            "getelementptr" => {
                skipflags(p); let ety = p.ty(); p.expect(','); let (pt, base) = self.tyval(p);
                if let Ty::Vec(..) = pt { cur.ins.push(I::Unsupported(line.to_string())); return; }
                let mut off = 0i64; let mut idx = vec![]; let mut cur_t = ety; let mut first = true;
                while p.eat(',') {
                    if let Tk::Meta(_) = p.peek() { break; }
                    let (it, iv) = self.tyval(p);
                    if first { first = false; match iv { Op::C(c) => off += cur_t.size() as i64 * (crate::term::sext(c as u128, it.w()) as i64), o => idx.push((o, cur_t.size() as i64, it.w())) } }
                    else { match &cur_t.clone() {
                        Ty::Struct(..) => { let c = match iv { Op::C(c) => c, _ => panic!() }; let (o, t) = cur_t.field(c); off += o as i64; cur_t = t; }
                        Ty::Arr(_, t) | Ty::Vec(_, t) => { match iv { Op::C(c) => off += t.size() as i64 * (crate::term::sext(c as u128, it.w()) as i64), o => idx.push((o, t.size() as i64, it.w())) } cur_t = (**t).clone(); }
                        _ => panic!("gep"),
                    } }
                }
                I::Gep(d, base, off, idx)
            }
            "select" => { skipflags(p); let (ct, c) = self.tyval(p); p.expect(','); let (t, a) = self.tyval(p); p.expect(','); let (_, b) = self.tyval(p); I::Select(t, d, c, a, b, matches!(ct, Ty::Vec(..))) }
            "phi" => {
                skipflags(p); let t = p.ty(); let mut inc = vec![];
                loop { p.expect('['); let v = self.val(p, &t); p.expect(','); let l = match p.next() { Tk::Loc(n) => self.blk(&n), t => panic!("{:?}", t) }; p.expect(']'); inc.push((l, v)); let s = p.i; if !p.eat(',') { break; } if p.peek() != Tk::Pun('[') { p.i = s; break; } }
                cur.phis.push((d, t, inc)); return;
            }
            "alloca" => {
                skipflags(p); let t = p.ty(); let mut n = 1u64; let mut al = t.align();
                while p.eat(',') { match p.peek() { Tk::Word(w) if w == "align" => { p.next(); al = p.num() as u64; } Tk::Meta(_) => break, _ => { let (_, v) = self.tyval(p); if let Op::C(c) = v { n = c; } else { cur.ins.push(I::Unsupported(line.to_string())); return; } } } }
                let al = al.max(8); self.frame = (self.frame + al - 1) / al * al; let o = self.frame; self.frame += t.size() * n; I::Alloca(d, o)
            }
            "freeze" => { let (_, v) = self.tyval(p); I::Freeze(d, v) }
            "extractvalue" => { let (_, a) = self.tyval(p); let mut ix = vec![]; while p.eat(',') { if let Tk::Meta(_) = p.peek() { break; } ix.push(p.num() as u64); } I::ExtractValue(d, a, ix) }
            "insertvalue" => { let (t, a) = self.tyval(p); p.expect(','); let (_, v) = self.tyval(p); let mut ix = vec![]; while p.eat(',') { if let Tk::Meta(_) = p.peek() { break; } ix.push(p.num() as u64); } I::InsertValue(d, a, t, v, ix) }
            "extractelement" => { let (_, a) = self.tyval(p); p.expect(','); let (_, i) = self.tyval(p); I::ExtractElt(d, a, i) }
            "insertelement" => { let (_, a) = self.tyval(p); p.expect(','); let (_, v) = self.tyval(p); p.expect(','); let (_, i) = self.tyval(p); I::InsertElt(d, a, v, i) }
            "shufflevector" => { let (t, a) = self.tyval(p); p.expect(','); let (_, b) = self.tyval(p); p.expect(','); let mt = p.ty(); let m = self.m.cval(p, &mt); let mv = match m { Cv::A(v) => v.iter().map(|x| if let Cv::I(x) = x { *x as i64 } else { 0 }).collect(), _ => vec![] }; I::Shuffle(d, a, b, mv, t.nfields()) }
            "call" | "invoke" => {
                skipflags(p);
                // calling convention / ret attrs
                loop { let s = p.i; match p.next() { Tk::Word(x) if matches!(x.as_str(), "fastcc" | "coldcc" | "ccc" | "tailcc" | "preserve_mostcc" | "preserve_allcc" | "preserve_nonecc") => {} Tk::Word(x) if x == "cc" => { p.num(); } _ => { p.i = s; break; } } }
                p.skip_attrs();
                let ret = p.ty();
                if p.peek() == Tk::Pun('(') { p.balanced(); } // function type for varargs
                let s = p.i;
                let callee = match p.next() { Tk::Glob(n) => { let n = self.m.resolve(&n); Callee::Direct(self.m.fid(&n)) } Tk::Loc(n) => Callee::Ind(Op::R(self.slot(&n))), Tk::Word(x) if x == "asm" => { cur.ins.push(if line.contains("sideeffect") && (line.contains("\"\"") || line.contains("memory")) && ret == Ty::Void { I::Nop } else { I::Unsupported(line.to_string()) }); return; } _ => { p.i = s; Callee::Ind(self.val(p, &Ty::Ptr)) } };
                p.expect('(');
                let mut args = vec![];
                if !p.eat(')') { loop { args.push(self.tyval(p)); if p.eat(')') { break; } p.expect(','); } }
                let mut normal = None;
                if w == "invoke" { loop { match p.next() { Tk::Word(x) if x == "to" => { normal = Some(self.label(p)); break; } Tk::Eof => panic!("invoke {}", line), _ => {} } } }
                I::Call { dst: if ret == Ty::Void { None } else { dst }, ret, callee, args, normal }
            }
            "br" => { if let Tk::Word(x) = p.peek() { if x == "label" { let l = self.label(p); cur.ins.push(I::Br(l)); return; } } let (_, c) = self.tyval(p); p.expect(','); let a = self.label(p); p.expect(','); let b = self.label(p); I::CondBr(c, a, b) }
            "switch" => { let (t, v) = self.tyval(p); p.expect(','); let d = self.label(p); p.expect('['); let mut cs = vec![]; while !p.eat(']') { let (_, c) = self.tyval(p); p.expect(','); let l = self.label(p); match c { Op::C(c) => cs.push((c, l)), _ => panic!("switch const") } } I::Switch(t, v, d, cs) }
            "ret" => { let t = p.ty(); if t == Ty::Void { I::Ret(None, t) } else { let v = self.val(p, &t); I::Ret(Some(v), t) } }
            "unreachable" | "resume" => I::Unreachable,
            "fence" => I::Nop,
            "atomicrmw" => { skipflags(p); let op = match p.next() { Tk::Word(x) => x, _ => panic!() }; let (_, a) = self.tyval(p); p.expect(','); let (t, v) = self.tyval(p); I::Rmw(op, t, d, a, v) }
            "cmpxchg" => { skipflags(p); let (_, a) = self.tyval(p); p.expect(','); let (t, c) = self.tyval(p); p.expect(','); let (_, n) = self.tyval(p); I::CmpXchg(t, d, a, c, n) }
            _ => I::Unsupported(line.to_string()),
        };
        cur.ins.push(ins);
    }
}
