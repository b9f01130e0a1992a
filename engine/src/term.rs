//! Hash-consed bit-vector terms with finite-domain table canonicalisation.
//! A `Tab` term is any function of one finite variable (<= 256 values), kept as its value table.
use std::cell::RefCell;
use crate::fx::HashMap;
use std::rc::Rc;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub struct Tm(pub u32);

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum BOp { Add, Sub, Mul, UDiv, SDiv, URem, SRem, And, Or, Xor, Shl, LShr, AShr }
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum COp { Eq, Ne, Ult, Ule, Ugt, Uge, Slt, Sle, Sgt, Sge }

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Node {
    Const(u128),
    Var(u32),
    Tab(u32, Rc<[u64]>),
    Bin(BOp, Tm, Tm),
    Cmp(COp, Tm, Tm),
    Ite(Tm, Tm, Tm),
    ZExt(Tm),
    SExt(Tm),
    Extract(Tm, u32),
    Concat(Tm, Tm), // hi, lo
}

pub type Mask = [u64; 4];

#[derive(Clone)]
pub struct VarInfo { pub width: u32, pub n: u32 /* 0 = not finite, else number of values */, pub name: String }

pub struct Store {
    pub nodes: Vec<(Node, u32)>,
    map: HashMap<(Node, u32), Tm>,
    pub vars: Vec<VarInfo>,
    fv: Vec<Option<Rc<[u32]>>>,
}

thread_local! { pub static ST: RefCell<Store> = RefCell::new(Store{nodes:vec![],map:HashMap::default(),vars:vec![],fv:vec![]}); }

pub fn maskw(w: u32) -> u128 { if w >= 128 { u128::MAX } else { (1u128 << w) - 1 } }
pub fn sext(v: u128, w: u32) -> i128 { if w >= 128 { v as i128 } else { ((v << (128 - w)) as i128) >> (128 - w) } }

fn mk(n: Node, w: u32) -> Tm {
    ST.with(|s| {
        let mut s = s.borrow_mut();
        let key = (n, w);
        if let Some(t) = s.map.get(&key) { return *t; }
        let t = Tm(s.nodes.len() as u32);
        s.nodes.push(key.clone());
        s.fv.push(None);
        s.map.insert(key, t);
        t
    })
}
pub fn node(t: Tm) -> (Node, u32) { ST.with(|s| s.borrow().nodes[t.0 as usize].clone()) }
pub fn width(t: Tm) -> u32 { ST.with(|s| s.borrow().nodes[t.0 as usize].1) }
pub fn cst(v: u128, w: u32) -> Tm { mk(Node::Const(v & maskw(w)), w) }
pub fn tru() -> Tm { cst(1, 1) }
pub fn fls() -> Tm { cst(0, 1) }
pub fn as_const(t: Tm) -> Option<u128> {
    ST.with(|s| if let Node::Const(v) = s.borrow().nodes[t.0 as usize].0 { Some(v) } else { None })
}
pub fn as_tab(t: Tm) -> Option<(u32, Rc<[u64]>)> {
    ST.with(|s| if let Node::Tab(v, x) = &s.borrow().nodes[t.0 as usize].0 { Some((*v, x.clone())) } else { None })
}
/// index-th input variable; get-or-create so that sibling paths share variables by creation order
pub fn var_n(id: u32) -> VarInfo { ST.with(|s| s.borrow().vars[id as usize].clone()) }
pub fn new_var(width: u32, n: u32, name: &str) -> u32 {
    ST.with(|s| {
        let mut s = s.borrow_mut();
        for (i, v) in s.vars.iter().enumerate() { if v.name == name && v.width == width && v.n == n { return i as u32; } }
        s.vars.push(VarInfo { width, n, name: name.to_string() });
        (s.vars.len() - 1) as u32
    })
}
pub fn var_term(id: u32) -> Tm {
    let vi = var_n(id);
    if vi.n > 0 { let t: Vec<u64> = (0..vi.n as u64).collect(); tab(id, t, vi.width) } else { mk(Node::Var(id), vi.width) }
}
pub fn tab(v: u32, t: Vec<u64>, w: u32) -> Tm {
    if t.iter().all(|x| *x == t[0]) { return cst(t[0] as u128, w); }
    mk(Node::Tab(v, t.into()), w)
}

pub fn bin_c(op: BOp, a: u128, b: u128, w: u32) -> u128 {
    let m = maskw(w);
    let r = match op {
        BOp::Add => a.wrapping_add(b), BOp::Sub => a.wrapping_sub(b), BOp::Mul => a.wrapping_mul(b),
        BOp::UDiv => if b == 0 { m } else { a / b },
        BOp::URem => if b == 0 { a } else { a % b },
        BOp::SDiv => if b == 0 { if sext(a, w) < 0 { 1 } else { m } } else { sext(a, w).wrapping_div(sext(b, w)) as u128 },
        BOp::SRem => if b == 0 { a } else { sext(a, w).wrapping_rem(sext(b, w)) as u128 },
        BOp::And => a & b, BOp::Or => a | b, BOp::Xor => a ^ b,
        BOp::Shl => if b >= w as u128 { 0 } else { a << b },
        BOp::LShr => if b >= w as u128 { 0 } else { a >> b },
        BOp::AShr => { let s = sext(a, w); if b >= w as u128 { if s < 0 { m } else { 0 } } else { (s >> b) as u128 } }
    };
    r & m
}
pub fn cmp_c(op: COp, a: u128, b: u128, w: u32) -> bool {
    let (sa, sb) = (sext(a, w), sext(b, w));
    match op {
        COp::Eq => a == b, COp::Ne => a != b, COp::Ult => a < b, COp::Ule => a <= b, COp::Ugt => a > b, COp::Uge => a >= b,
        COp::Slt => sa < sb, COp::Sle => sa <= sb, COp::Sgt => sa > sb, COp::Sge => sa >= sb,
    }
}

enum K { C(u128), T(u32, Rc<[u64]>), O }
fn kind(t: Tm) -> K {
    ST.with(|s| match &s.borrow().nodes[t.0 as usize].0 { Node::Const(c) => K::C(*c), Node::Tab(v, x) => K::T(*v, x.clone()), _ => K::O })
}
fn lift2(a: Tm, b: Tm, ow: u32, f: &dyn Fn(u128, u128) -> u128) -> Option<Tm> {
    let iw = width(a);
    match (kind(a), kind(b)) {
        (K::C(x), K::C(y)) => Some(cst(f(x, y), ow)),
        (K::T(v, x), K::C(y)) if iw <= 64 && ow <= 64 => Some(tab(v, x.iter().map(|e| f(*e as u128, y) as u64).collect(), ow)),
        (K::C(x), K::T(v, y)) if iw <= 64 && ow <= 64 => Some(tab(v, y.iter().map(|e| f(x, *e as u128) as u64).collect(), ow)),
        (K::T(v, x), K::T(u, y)) if v == u && ow <= 64 => Some(tab(v, x.iter().zip(y.iter()).map(|(a, b)| f(*a as u128, *b as u128) as u64).collect(), ow)),
        _ => None,
    }
}
fn lift1(a: Tm, ow: u32, f: &dyn Fn(u128) -> u128) -> Option<Tm> {
    match kind(a) {
        K::C(x) => Some(cst(f(x), ow)),
        K::T(v, x) if ow <= 64 => Some(tab(v, x.iter().map(|e| f(*e as u128) as u64).collect(), ow)),
        _ => None,
    }
}

pub fn bin(op: BOp, a: Tm, b: Tm) -> Tm {
    let w = width(a);
    if let Some(t) = lift2(a, b, w, &|x, y| bin_c(op, x, y, w)) { return t; }
    let (ca, cb) = (as_const(a), as_const(b));
    let m = maskw(w);
    match op {
        BOp::Add => { if ca == Some(0) { return b; } if cb == Some(0) { return a; }
            // (x + c1) + c2
            if let Some(c2) = cb { if let (Node::Bin(BOp::Add, x, c1), _) = node(a) { if let Some(c1) = as_const(c1) { return bin(BOp::Add, x, cst(c1.wrapping_add(c2), w)); } } }
            if ca.is_some() { return bin(BOp::Add, b, a); } }
        BOp::Sub => { if cb == Some(0) { return a; } if a == b { return cst(0, w); }
            if let Some(c) = cb { return bin(BOp::Add, a, cst((!c).wrapping_add(1), w)); } }
        BOp::Mul => { if ca == Some(0) || cb == Some(0) { return cst(0, w); } if ca == Some(1) { return b; } if cb == Some(1) { return a; } }
        BOp::And => { if a == b { return a; } if ca == Some(0) || cb == Some(0) { return cst(0, w); } if ca == Some(m) { return b; } if cb == Some(m) { return a; } }
        BOp::Or => { if a == b { return a; } if ca == Some(0) { return b; } if cb == Some(0) { return a; } if ca == Some(m) || cb == Some(m) { return cst(m, w); } }
        BOp::Xor => { if a == b { return cst(0, w); } if ca == Some(0) { return b; } if cb == Some(0) { return a; }
            if w == 1 { if ca == Some(1) { return not(b); } if cb == Some(1) { return not(a); } } }
        BOp::Shl | BOp::LShr | BOp::AShr => { if cb == Some(0) { return a; } if ca == Some(0) { return a; } }
        _ => {}
    }
    mk(Node::Bin(op, a, b), w)
}
pub fn not(a: Tm) -> Tm {
    // only for width 1
    if let Some(t) = lift1(a, 1, &|x| x ^ 1) { return t; }
    match node(a).0 {
        Node::Cmp(op, x, y) => {
            let o = match op { COp::Eq => COp::Ne, COp::Ne => COp::Eq, COp::Ult => COp::Uge, COp::Uge => COp::Ult, COp::Ule => COp::Ugt, COp::Ugt => COp::Ule,
                COp::Slt => COp::Sge, COp::Sge => COp::Slt, COp::Sle => COp::Sgt, COp::Sgt => COp::Sle };
            return mk(Node::Cmp(o, x, y), 1);
        }
        Node::Bin(BOp::Xor, x, o) if as_const(o) == Some(1) => return x,
        _ => {}
    }
    mk(Node::Bin(BOp::Xor, a, tru()), 1)
}
pub fn cmp(op: COp, a: Tm, b: Tm) -> Tm {
    let w = width(a);
    if let Some(t) = lift2(a, b, 1, &|x, y| cmp_c(op, x, y, w) as u128) { return t; }
    if a == b { return match op { COp::Eq | COp::Ule | COp::Uge | COp::Sle | COp::Sge => tru(), _ => fls() }; }
    // compare of ite with const arms against const
    if let (Node::Ite(c, x, y), _) = node(a) {
        if as_const(b).is_some() && (as_const(x).is_some() || as_const(y).is_some()) { return ite(c, cmp(op, x, b), cmp(op, y, b)); }
    }
    if let (Node::ZExt(x), _) = node(a) {
        if let Some(cb) = as_const(b) {
            let wx = width(x);
            if cb <= maskw(wx) && matches!(op, COp::Eq | COp::Ne | COp::Ult | COp::Ule | COp::Ugt | COp::Uge) { return cmp(op, x, cst(cb, wx)); }
            if cb > maskw(wx) { match op { COp::Eq => return fls(), COp::Ne => return tru(), COp::Ult | COp::Ule => return tru(), COp::Ugt | COp::Uge => return fls(), _ => {} } }
        }
        if let (Node::ZExt(y), _) = node(b) { if width(x) == width(y) && matches!(op, COp::Eq | COp::Ne | COp::Ult | COp::Ule | COp::Ugt | COp::Uge) { return cmp(op, x, y); } }
    }
    if w == 1 {
        match (op, as_const(b)) { (COp::Eq, Some(1)) | (COp::Ne, Some(0)) => return a, (COp::Eq, Some(0)) | (COp::Ne, Some(1)) => return not(a), _ => {} }
    }
    mk(Node::Cmp(op, a, b), 1)
}
pub fn ite(c: Tm, a: Tm, b: Tm) -> Tm {
    if a == b { return a; }
    if let Some(v) = as_const(c) { return if v == 1 { a } else { b }; }
    let w = width(a);
    if let K::T(v, cm) = kind(c) {
        let get = |t: Tm| -> Option<Vec<u64>> { match kind(t) { K::C(x) if w <= 64 => Some(vec![x as u64; cm.len()]), K::T(u, x) if u == v => Some(x.to_vec()), _ => None } };
        if let (Some(x), Some(y)) = (get(a), get(b)) {
            return tab(v, cm.iter().enumerate().map(|(i, c)| if *c == 1 { x[i] } else { y[i] }).collect(), w);
        }
    }
    if w == 1 {
        match (as_const(a), as_const(b)) {
            (Some(1), Some(0)) => return c, (Some(0), Some(1)) => return not(c),
            (Some(1), None) => return bin(BOp::Or, c, b), (Some(0), None) => return bin(BOp::And, not(c), b),
            (None, Some(0)) => return bin(BOp::And, c, a), (None, Some(1)) => return bin(BOp::Or, not(c), a), _ => {}
        }
    }
    mk(Node::Ite(c, a, b), w)
}
pub fn zext(a: Tm, w: u32) -> Tm {
    let iw = width(a);
    if iw == w { return a; }
    if let Some(t) = lift1(a, w, &|x| x) { return t; }
    if let (Node::ZExt(x), _) = node(a) { return zext(x, w); }
    mk(Node::ZExt(a), w)
}
pub fn sxt(a: Tm, w: u32) -> Tm {
    let iw = width(a);
    if iw == w { return a; }
    if let Some(t) = lift1(a, w, &|x| (sext(x, iw) as u128) & maskw(w)) { return t; }
    mk(Node::SExt(a), w)
}
pub fn extract(a: Tm, lo: u32, w: u32) -> Tm {
    let iw = width(a);
    if lo == 0 && iw == w { return a; }
    if let Some(t) = lift1(a, w, &|x| (x >> lo) & maskw(w)) { return t; }
    match node(a).0 {
        Node::Extract(x, l2) => return extract(x, lo + l2, w),
        Node::ZExt(x) => { let xw = width(x); if lo + w <= xw { return extract(x, lo, w); } if lo >= xw { return cst(0, w); } if lo == 0 { return zext(x, w); } }
        Node::Concat(h, l) => { let lw = width(l); if lo + w <= lw { return extract(l, lo, w); } if lo >= lw { return extract(h, lo - lw, w); } }
        Node::Ite(c, x, y) if as_const(x).is_some() || as_const(y).is_some() => return ite(c, extract(x, lo, w), extract(y, lo, w)),
        _ => {}
    }
    mk(Node::Extract(a, lo), w)
}
pub fn concat(h: Tm, l: Tm) -> Tm {
    let (hw, lw) = (width(h), width(l));
    let w = hw + lw;
    if let (Some(a), Some(b)) = (as_const(h), as_const(l)) { return cst((a << lw) | b, w); }
    if as_const(h) == Some(0) { return zext(l, w); }
    if w <= 64 { if let Some(t) = lift2_w(h, l, w, lw) { return t; } }
    if let (Node::Extract(x, lo), _) = node(h) {
        if let (Node::Extract(y, lo2), _) = node(l) { if x == y && lo == lo2 + lw { return extract(x, lo2, w); } }
    }
    mk(Node::Concat(h, l), w)
}
fn lift2_w(h: Tm, l: Tm, w: u32, lw: u32) -> Option<Tm> {
    match (kind(h), kind(l)) {
        (K::T(v, x), K::C(y)) => Some(tab(v, x.iter().map(|e| (*e << lw) | y as u64).collect(), w)),
        (K::C(x), K::T(v, y)) => Some(tab(v, y.iter().map(|e| ((x as u64) << lw) | *e).collect(), w)),
        (K::T(v, x), K::T(u, y)) if v == u => Some(tab(v, x.iter().zip(y.iter()).map(|(a, b)| (*a << lw) | *b).collect(), w)),
        _ => None,
    }
}

/// free variables
pub fn fv(t: Tm) -> Rc<[u32]> {
    if let Some(x) = ST.with(|s| s.borrow().fv[t.0 as usize].clone()) { return x; }
    let mut out: Vec<u32> = vec![];
    match node(t).0 {
        Node::Const(_) => {}
        Node::Var(v) | Node::Tab(v, _) => out.push(v),
        Node::Bin(_, a, b) | Node::Cmp(_, a, b) | Node::Concat(a, b) => { out.extend(fv(a).iter()); out.extend(fv(b).iter()); }
        Node::Ite(c, a, b) => { out.extend(fv(c).iter()); out.extend(fv(a).iter()); out.extend(fv(b).iter()); }
        Node::ZExt(a) | Node::SExt(a) | Node::Extract(a, _) => out.extend(fv(a).iter()),
    }
    out.sort(); out.dedup();
    let r: Rc<[u32]> = out.into();
    ST.with(|s| s.borrow_mut().fv[t.0 as usize] = Some(r.clone()));
    r
}

/// evaluate under a model (values per variable id; missing = 0)
pub fn eval(t: Tm, m: &[u64]) -> u128 {
    let mut memo: HashMap<Tm, u128> = HashMap::default();
    eval_m(t, m, &mut memo)
}
fn eval_m(t: Tm, m: &[u64], memo: &mut HashMap<Tm, u128>) -> u128 {
    let (n, w) = node(t);
    match n {
        Node::Const(c) => return c,
        Node::Var(v) => return (m.get(v as usize).copied().unwrap_or(0) as u128) & maskw(w),
        Node::Tab(v, x) => return x[(m.get(v as usize).copied().unwrap_or(0) as usize).min(x.len() - 1)] as u128,
        _ => {}
    }
    if let Some(v) = memo.get(&t) { return *v; }
    let r = match n {
        Node::Bin(op, a, b) => { let (x, y) = (eval_m(a, m, memo), eval_m(b, m, memo)); bin_c(op, x, y, w) }
        Node::Cmp(op, a, b) => { let iw = width(a); let (x, y) = (eval_m(a, m, memo), eval_m(b, m, memo)); cmp_c(op, x, y, iw) as u128 }
        Node::Ite(c, a, b) => if eval_m(c, m, memo) == 1 { eval_m(a, m, memo) } else { eval_m(b, m, memo) },
        Node::ZExt(a) => eval_m(a, m, memo),
        Node::SExt(a) => { let iw = width(a); (sext(eval_m(a, m, memo), iw) as u128) & maskw(w) }
        Node::Extract(a, lo) => (eval_m(a, m, memo) >> lo) & maskw(w),
        Node::Concat(h, l) => { let lw = width(l); (eval_m(h, m, memo) << lw) | eval_m(l, m, memo) }
        _ => unreachable!(),
    };
    memo.insert(t, r);
    r
}
pub fn tab_mask(x: &[u64]) -> Mask { let mut m = [0u64; 4]; for (i, v) in x.iter().enumerate() { if *v != 0 { m[i >> 6] |= 1 << (i & 63); } } m }
pub fn full_mask(n: u32) -> Mask { let mut m = [0u64; 4]; for i in 0..n as usize { m[i >> 6] |= 1 << (i & 63); } m }
pub fn m_and(a: &Mask, b: &Mask) -> Mask { [a[0] & b[0], a[1] & b[1], a[2] & b[2], a[3] & b[3]] }
pub fn m_empty(a: &Mask) -> bool { *a == [0; 4] }
pub fn m_has(a: &Mask, i: u64) -> bool { (a[(i >> 6) as usize] >> (i & 63)) & 1 == 1 }
pub fn m_first(a: &Mask) -> u64 { for i in 0..256u64 { if m_has(a, i) { return i; } } 0 }
pub fn m_iter(a: &Mask) -> Vec<u64> { (0..256u64).filter(|i| m_has(a, *i)).collect() }
pub fn show(t: Tm) -> String { show_d(t, 6) }
fn show_d(t: Tm, d: u32) -> String {
    if d == 0 { return "..".into(); }
    let (n, w) = node(t); let s = |x: Tm| show_d(x, d - 1);
    match n { Node::Const(c) => format!("{}", c), Node::Var(v) => format!("v{}", v), Node::Tab(v, x) => if w == 1 { let m: Vec<usize> = (0..x.len()).filter(|i| x[*i] == 1).collect(); if m.len() > 6 { format!("tab(v{},#{})", v, m.len()) } else { format!("v{} in {:?}", v, m) } } else { format!("f(v{})", v) },
        Node::Bin(o, a, b) => format!("({:?} {} {})", o as u32, s(a), s(b)), Node::Cmp(o, a, b) => format!("[{:?} {} {}]", o as u32, s(a), s(b)), Node::Ite(a, b, c) => format!("ite({},{},{})", s(a), s(b), s(c)), Node::ZExt(a) => format!("z{}({})", w, s(a)), Node::SExt(a) => format!("s{}({})", w, s(a)), Node::Extract(a, l) => format!("x{}+{}({})", l, w, s(a)), Node::Concat(a, b) => format!("cat({},{})", s(a), s(b)) }
}
