//! Symbolic executor over the LLVM IR of the code under test.
use crate::ir::*;
use crate::term::*;
use crate::z3::Z3;
use std::collections::BTreeMap; use crate::fx::{HashMap, HashSet};
use std::rc::Rc;

#[derive(Clone, Debug)]
pub enum V { C(u64), T(Tm), A(Rc<Vec<V>>) }

#[derive(Clone, Default)]
pub struct Obj { pub data: Vec<u8>, pub syms: BTreeMap<u32, (Tm, u8)> }

#[derive(Clone)]
pub struct Frame { pub f: Rc<Func>, pub blk: u32, pub ip: u32, pub regs: Vec<V>, pub dst: Option<u32>, pub rty: u8, pub normal: Option<u32>, pub mem: Rc<Obj> }

pub const SBASE: u64 = 0x3000_0000_0000;
pub const HBASE: u64 = 0x4000_0000_0000;

#[derive(Clone)]
pub struct State {
    pub heap: Vec<Rc<Obj>>,
    pub globals: HashMap<u32, Rc<Obj>>,
    pub frames: Vec<Frame>,
    pub pc: Vec<Tm>,
    pub doms: Vec<Option<Mask>>,
    pub mixed: Vec<bool>,
    pub model: Vec<u64>,
    pub inputs: Vec<u32>,
    pub known: HashMap<Tm, u64>,
    pub obs: Vec<V>,
    pub covers: Vec<u32>,
    pub steps: u64,
}

#[derive(Clone, Debug)]
pub enum End { Done, Infeasible, Panic(String), Limit(String), Unsupported(String), Oob(String) }

#[derive(Clone, Debug)]
pub struct Report { pub kind: String, pub id: u32, pub known: u32, pub msg: String, pub inputs: Vec<u64>, pub stack: Vec<String> }

#[derive(Default, Clone)]
pub struct Tally {
    pub paths: u64, pub done: u64, pub infeasible: u64, pub cut: u64, pub forks: u64, pub steps: u64,
    pub checks: u64, pub checks_const: u64, pub checks_smt: u64, pub dom_prunes: u64, pub dom_branches: u64, pub model_hits: u64, pub smt_branches: u64, pub calls: u64, pub prune_confirm: u64, pub leaf_confirm: u64, pub xsteps: u64,
}

pub struct Cfg {
    pub max_steps: u64, pub max_depth: usize,
    pub skip: Vec<Vec<String>>, pub copy_clone: Vec<Vec<String>>, pub redirect: Vec<(Vec<String>, String)>, pub tabulate: Vec<Vec<String>>, pub known_panic: Vec<String>,
    pub max_reports: usize, pub samples: usize, pub confirm: u64, pub leaf: bool, pub atomize: bool,
}

#[derive(Clone, PartialEq)]
enum Kind { Normal, Skip, CopyClone(u64), Redirect(u32), Tabulate, Builtin(String), Panic, Alloc, AllocZ, Dealloc, Realloc }

pub struct Exec {
    pub m: Module, pub z3: Z3, pub cfg: Cfg, pub t: Tally,
    gcache: HashMap<u32, Rc<Obj>>, kinds: HashMap<u32, Rc<Kind>>,
    pub funcs_hit: HashSet<u32>, pub blocks_hit: Vec<Vec<u32>>,
    pub reports: Vec<Report>, pub samples: Vec<(Vec<u64>, Vec<u64>)>, pub covers: HashMap<u32, u64>, pub report_keys: HashMap<String, u64>, pub max_done: u64,
    sample_ctr: u64, tabmemo: HashMap<(u32, u64), u64>,
}

enum Step { Next, Fork(Vec<State>), End(End) }
type R<T> = Result<T, Stop>;
enum Stop { End(End), Conc(Tm) /* needs concretisation of this term, then re-run the instruction */ }
fn unsup<T>(s: impl Into<String>) -> R<T> { Err(Stop::End(End::Unsupported(s.into()))) }

fn pat(name: &str, p: &[String]) -> bool { p.iter().all(|x| if let Some(y) = x.strip_prefix('^') { name.starts_with(y) } else if let Some(y) = x.strip_suffix('$') { name.ends_with(y) } else if let Some(y) = x.strip_prefix('!') { !name.contains(y) } else { name.contains(x.as_str()) }) }

/// first undecided boolean atom over one finite variable inside a term
fn atom(t: Tm) -> Option<Tm> {
    if as_tab(t).is_some() { return if width(t) == 1 { Some(t) } else { None }; }
    match node(t).0 { Node::Bin(_, a, b) | Node::Cmp(_, a, b) | Node::Concat(a, b) => atom(a).or_else(|| atom(b)), Node::Ite(c, a, b) => atom(c).or_else(|| atom(a)).or_else(|| atom(b)), Node::ZExt(a) | Node::SExt(a) | Node::Extract(a, _) => atom(a), _ => None }
}
impl State {
    fn dom(&self, v: u32) -> Mask { self.doms.get(v as usize).and_then(|x| *x).unwrap_or_else(|| full_mask(var_n(v).n)) }
    fn is_mixed(&self, v: u32) -> bool { self.mixed.get(v as usize).copied().unwrap_or(false) }
    pub fn simp(&self, t: Tm) -> Tm {
        if let Some((v, x)) = as_tab(t) {
            let d = self.dom(v); let mut val = None;
            for w in 0..4 { let mut b = d[w]; while b != 0 { let i = w * 64 + b.trailing_zeros() as usize; b &= b - 1; match val { None => val = Some(x[i]), Some(y) => if y != x[i] { return t; } } } }
            return cst(val.unwrap_or(0) as u128, width(t));
        }
        if let Some(v) = self.known.get(&t) { return cst(*v as u128, width(t)); }
        t
    }
    /// rebuild a term with every part decided by the path's domains replaced by its value
    pub fn deep(&self, t: Tm, memo: &mut HashMap<Tm, Tm>) -> Tm {
        let t0 = self.simp(t); if as_const(t0).is_some() || as_tab(t0).is_some() { return t0; }
        if let Some(x) = memo.get(&t) { return *x; }
        let w = width(t);
        let r = match node(t).0 {
            Node::Bin(o, a, b) => { let a = self.deep(a, memo); let c = as_const(a); if (o == BOp::And && c == Some(0)) || (o == BOp::Or && c == Some(maskw(w))) { a } else { let b = self.deep(b, memo); bin(o, a, b) } }
            Node::Cmp(o, a, b) => { let (a, b) = (self.deep(a, memo), self.deep(b, memo)); cmp(o, a, b) }
            Node::Ite(c, a, b) => { let c = self.deep(c, memo); match as_const(c) { Some(1) => self.deep(a, memo), Some(_) => self.deep(b, memo), None => { let (a, b) = (self.deep(a, memo), self.deep(b, memo)); ite(c, a, b) } } }
            Node::ZExt(a) => { let a = self.deep(a, memo); zext(a, w) }
            Node::SExt(a) => { let a = self.deep(a, memo); sxt(a, w) }
            Node::Extract(a, lo) => { let a = self.deep(a, memo); extract(a, lo, w) }
            Node::Concat(a, b) => { let (a, b) = (self.deep(a, memo), self.deep(b, memo)); concat(a, b) }
            _ => t,
        };
        let r = self.simp(r); memo.insert(t, r); r
    }
    /// add a constraint known to be satisfiable; `model` must satisfy it
    pub fn add(&mut self, c: Tm, model: Vec<u64>) {
        self.model = model;
        if as_const(c).is_some() { return; }
        self.pc.push(c);
        if let Some((v, x)) = as_tab(c) {
            let d = m_and(&self.dom(v), &tab_mask(&x));
            while self.doms.len() <= v as usize { self.doms.push(None); }
            self.doms[v as usize] = Some(d);
        } else {
            // split conjunctions so that table conjuncts narrow domains
            if let (Node::Bin(BOp::And, a, b), 1) = node(c) { self.narrow(a); self.narrow(b); }
            for v in fv(c).iter() { while self.mixed.len() <= *v as usize { self.mixed.push(false); } self.mixed[*v as usize] = true; }
        }
    }
    fn narrow(&mut self, c: Tm) {
        if let Some((v, x)) = as_tab(c) { let d = m_and(&self.dom(v), &tab_mask(&x)); while self.doms.len() <= v as usize { self.doms.push(None); } self.doms[v as usize] = Some(d); }
        else if let (Node::Bin(BOp::And, a, b), 1) = node(c) { self.narrow(a); self.narrow(b); }
    }
    pub fn input_vals(&self, m: &[u64]) -> Vec<u64> { self.inputs.iter().map(|v| m.get(*v as usize).copied().unwrap_or(0)).collect() }
}

impl Exec {
    pub fn new(m: Module, cfg: Cfg) -> Exec {
        Exec { m, z3: Z3::new(), cfg, t: Tally::default(), gcache: HashMap::default(), kinds: HashMap::default(), funcs_hit: HashSet::default(), blocks_hit: vec![], reports: vec![], samples: vec![], covers: HashMap::default(), report_keys: HashMap::default(), max_done: 0, sample_ctr: 0, tabmemo: HashMap::default() }
    }
    pub fn init(&mut self, entry: &str) -> State {
        let id = self.m.fid(entry);
        let f = self.m.func(id).unwrap_or_else(|| { eprintln!("llsx: no entry {}", entry); std::process::exit(3) });
        let mut st = State { heap: vec![], globals: HashMap::default(), frames: vec![], pc: vec![], doms: vec![], mixed: vec![], model: vec![], inputs: vec![], known: HashMap::default(), obs: vec![], covers: vec![], steps: 0 };
        self.push_frame(&mut st, f, vec![], None, None);
        st
    }
    fn hit(&mut self, f: &Func, b: u32) { let i = f.id as usize; if i >= self.blocks_hit.len() { self.blocks_hit.resize(i + 1, vec![]); } let v = &mut self.blocks_hit[i]; if v.is_empty() { v.resize(f.blocks.len(), 0); } v[b as usize] = 1; }
    fn push_frame(&mut self, st: &mut State, f: Rc<Func>, args: Vec<V>, dst: Option<u32>, normal: Option<u32>) {
        self.t.calls += 1;
        self.hit(&f, 0);
        let mut regs = vec![V::C(0); f.nslots as usize];
        for (i, p) in f.params.iter().enumerate() { if i < args.len() { regs[*p as usize] = args[i].clone(); } }
        let mem = Rc::new(Obj { data: vec![0; f.frame as usize], syms: BTreeMap::new() });
        st.frames.push(Frame { f, blk: 0, ip: 0, regs, dst, rty: 0, normal, mem });
    }

    // ---- satisfiability -------------------------------------------------
    pub fn sat(&mut self, st: &State, c: Tm) -> Option<Vec<u64>> {
        if let Some(v) = as_const(c) { return if v == 1 { Some(st.model.clone()) } else { None }; }
        if let Some((v, x)) = as_tab(c) {
            let m = m_and(&tab_mask(&x), &st.dom(v));
            if m_empty(&m) { self.t.dom_prunes += 1;
                if self.cfg.confirm > 0 && self.t.dom_prunes % self.cfg.confirm == 0 { self.t.prune_confirm += 1; if self.z3.check(&st.pc, Some(c)).is_some() { eprintln!("llsx: INTERNAL domain prune not confirmed"); std::process::exit(3); } }
                return None; }
            let cur = st.model.get(v as usize).copied().unwrap_or(0);
            if m_has(&m, cur) { self.t.model_hits += 1; return Some(st.model.clone()); }
            if !st.is_mixed(v) { self.t.dom_branches += 1; let mut md = st.model.clone(); while md.len() <= v as usize { md.push(0); } md[v as usize] = m_first(&m); return Some(md); }
        } else if eval(c, &st.model) == 1 { self.t.model_hits += 1; return Some(st.model.clone()); }
        self.t.smt_branches += 1;
        if self.t.smt_branches % 997 == 0 && std::env::var("LLSX_DBG").is_ok() { eprintln!("SMT {:?} {:?}", self.stack_names(st).iter().take(3).collect::<Vec<_>>(), show(c)); }
        self.z3.check(&st.pc, Some(c))
    }

    // ---- values ---------------------------------------------------------
    fn cv(&self, c: &Cv, t: &Ty) -> V {
        match c {
            Cv::I(x) => if t.scalar() && t.w() <= 64 { V::C(*x as u64) } else if t.scalar() { V::T(cst(*x, t.w())) } else { self.cv(&zero(t), t) },
            Cv::A(f) => V::A(Rc::new(f.iter().enumerate().map(|(i, e)| self.cv(e, &t.field(i as u64).1)).collect())),
        }
    }
    fn op(&self, st: &State, o: &Op) -> V {
        match o { Op::R(r) => st.frames.last().unwrap().regs[*r as usize].clone(), Op::C(c) => V::C(*c), Op::K(c, t) => self.cv(c, t) }
    }
    fn set(&self, st: &mut State, d: u32, v: V) { st.frames.last_mut().unwrap().regs[d as usize] = v; }
    fn tm(v: &V, w: u32) -> Tm { match v { V::C(c) => cst(*c as u128, w), V::T(t) => *t, V::A(_) => panic!("agg as term") } }
    fn vt(t: Tm) -> V { let w = width(t); if w <= 64 { if let Some(c) = as_const(t) { return V::C(c as u64); } } V::T(t) }
    /// concrete value or request concretisation
    fn conc(&self, st: &State, v: &V) -> R<u64> {
        match v { V::C(c) => Ok(*c), V::T(t) => { let s = st.simp(*t); if let Some(c) = as_const(s) { Ok(c as u64) } else { Err(Stop::Conc(s)) } } V::A(_) => unsup("conc agg") }
    }

    fn bin_v(&self, op: BOp, w: u32, a: &V, b: &V) -> V {
        if let (V::C(x), V::C(y)) = (a, b) { if w <= 64 {
            let m = if w == 64 { u64::MAX } else { (1u64 << w) - 1 };
            match op { BOp::Add => return V::C(x.wrapping_add(*y) & m), BOp::Sub => return V::C(x.wrapping_sub(*y) & m), BOp::And => return V::C(x & y), BOp::Or => return V::C(x | y), BOp::Xor => return V::C(x ^ y), _ => {} }
            return V::C(bin_c(op, *x as u128, *y as u128, w) as u64);
        } }
        Self::vt(bin(op, Self::tm(a, w), Self::tm(b, w)))
    }
    fn cmp_v(&self, op: COp, w: u32, a: &V, b: &V) -> V {
        if let (V::C(x), V::C(y)) = (a, b) {
            return V::C(match op { COp::Eq => x == y, COp::Ne => x != y, COp::Ult => x < y, COp::Ule => x <= y, COp::Ugt => x > y, COp::Uge => x >= y, _ => cmp_c(op, *x as u128, *y as u128, w) } as u64);
        }
        Self::vt(cmp(op, Self::tm(a, w), Self::tm(b, w)))
    }
    fn lanes(ty: &Ty) -> Option<(u64, Ty)> { if let Ty::Vec(n, t) = ty { Some((*n, (**t).clone())) } else { None } }
    fn lane(v: &V, i: usize) -> V { match v { V::A(x) => x[i].clone(), _ => panic!("lane of scalar") } }
    fn cast_v(&self, k: Cast, fw: u32, tw: u32, a: &V) -> V {
        if let V::C(x) = a { if tw <= 64 { return V::C(match k { Cast::Trunc => x & (maskw(tw) as u64), Cast::SExt => (sext(*x as u128, fw) as u128 & maskw(tw)) as u64, _ => *x }); } }
        let t = Self::tm(a, fw);
        Self::vt(match k { Cast::Trunc => extract(t, 0, tw), Cast::ZExt => zext(t, tw), Cast::SExt => sxt(t, tw), Cast::Same => t })
    }
    fn sel(&self, c: Tm, a: &V, b: &V, ty: &Ty) -> V {
        match (a, b) {
            (V::A(x), V::A(y)) => V::A(Rc::new(x.iter().zip(y.iter()).enumerate().map(|(i, (p, q))| self.sel(c, p, q, &ty.field(i as u64).1)).collect())),
            _ => { let w = ty.w(); Self::vt(ite(c, Self::tm(a, w), Self::tm(b, w))) }
        }
    }

    // ---- memory ---------------------------------------------------------
    fn gobj(&mut self, g: u32) -> Option<Rc<Obj>> {
        if let Some(o) = self.gcache.get(&g) { return Some(o.clone()); }
        let d = self.m.ginit(g).unwrap_or_else(|| vec![0; self.m.globals[g as usize].size as usize]);
        let o = Rc::new(Obj { data: d, syms: BTreeMap::new() });
        self.gcache.insert(g, o.clone());
        Some(o)
    }
    fn obj(&mut self, st: &State, a: u64, n: u64) -> R<(Rc<Obj>, usize)> {
        let off = (a & ((1 << SHIFT) - 1)) as usize;
        let idx = |b: u64| ((a - b) >> SHIFT) as usize;
        let o = if a >= HBASE { st.heap.get(idx(HBASE)).cloned() }
            else if a >= SBASE { st.frames.get(idx(SBASE)).map(|f| f.mem.clone()) }
            else if a >= GBASE { let g = idx(GBASE) as u32; match st.globals.get(&g) { Some(o) => Some(o.clone()), None => if (g as usize) < self.m.globals.len() { self.gobj(g) } else { None } } }
            else { None };
        match o { Some(o) if off + n as usize <= o.data.len() => Ok((o, off)), _ => Err(Stop::End(End::Oob(format!("access of {} bytes at {:#x} (object size {:?})", n, a, o.map(|o| o.data.len()))))) }
    }
    fn obj_mut<'a>(&mut self, st: &'a mut State, a: u64, n: u64) -> R<(&'a mut Obj, usize)> {
        let off = (a & ((1 << SHIFT) - 1)) as usize;
        let idx = |b: u64| ((a - b) >> SHIFT) as usize;
        let o = if a >= HBASE { st.heap.get_mut(idx(HBASE)) }
            else if a >= SBASE { st.frames.get_mut(idx(SBASE)).map(|f| &mut f.mem) }
            else if a >= GBASE { let g = idx(GBASE) as u32; if (g as usize) >= self.m.globals.len() { None } else { if !st.globals.contains_key(&g) { let o = self.gobj(g).unwrap(); st.globals.insert(g, o); } st.globals.get_mut(&g) } }
            else { None };
        match o { Some(o) if off + n as usize <= o.data.len() => Ok((Rc::make_mut(o), off)), _ => Err(Stop::End(End::Oob(format!("write of {} bytes at {:#x}", n, a)))) }
    }
    fn alloc(&self, st: &mut State, n: u64) -> u64 {
        let a = HBASE + ((st.heap.len() as u64) << SHIFT);
        st.heap.push(Rc::new(Obj { data: vec![0; n as usize], syms: BTreeMap::new() }));
        let extra = n >> SHIFT; for _ in 0..extra { st.heap.push(Rc::new(Obj::default())); }
        a
    }
    fn load_obj(o: &Obj, off: usize, n: usize, w: u32) -> V {
        if !o.syms.is_empty() {
            if o.syms.range(off as u32..(off + n) as u32).next().is_some() {
                // single term?
                if let Some((t, 0)) = o.syms.get(&(off as u32)) {
                    let tw = width(*t);
                    if tw as usize == n * 8 && (1..n).all(|k| o.syms.get(&((off + k) as u32)) == Some(&(*t, k as u8))) { return Self::vt(if w < tw { extract(*t, 0, w) } else { *t }); }
                }
                let byte = |k: usize| match o.syms.get(&((off + k) as u32)) { Some((t, i)) => { let tw = width(*t); let lo = *i as u32 * 8; extract(*t, lo, 8.min(tw - lo)) } None => cst(o.data[off + k] as u128, 8) };
                let mut acc = byte(0);
                for k in 1..n { acc = concat(byte(k), acc); }
                let tw = width(acc);
                return Self::vt(if w < tw { extract(acc, 0, w) } else if w > tw { zext(acc, w) } else { acc });
            }
        }
        if n <= 8 {
            let mut x = 0u64; for k in (0..n).rev() { x = (x << 8) | o.data[off + k] as u64; }
            if w < 64 { x &= (1u64 << w) - 1; }
            V::C(x)
        } else { let mut x = 0u128; for k in (0..n.min(16)).rev() { x = (x << 8) | o.data[off + k] as u128; } Self::vt(cst(x, w)) }
    }
    fn load(&mut self, st: &State, a: u64, ty: &Ty) -> R<V> {
        if ty.scalar() { let n = ty.store(); let (o, off) = self.obj(st, a, n)?; return Ok(Self::load_obj(&o, off, n as usize, ty.w())); }
        let mut v = vec![]; for i in 0..ty.nfields() { let (o, t) = ty.field(i); v.push(self.load(st, a + o, &t)?); }
        Ok(V::A(Rc::new(v)))
    }
    fn store(&mut self, st: &mut State, a: u64, ty: &Ty, v: &V) -> R<()> {
        if !ty.scalar() { if let V::A(f) = v { for i in 0..ty.nfields() { let (o, t) = ty.field(i); self.store(st, a + o, &t, &f[i as usize])?; } } return Ok(()); }
        let n = ty.store();
        let (o, off) = self.obj_mut(st, a, n)?;
        if !o.syms.is_empty() { for k in 0..n as usize { o.syms.remove(&((off + k) as u32)); } }
        match v {
            V::C(c) => for k in 0..n as usize { o.data[off + k] = if k < 8 { (*c >> (8 * k)) as u8 } else { 0 }; },
            V::T(t) => { if let Some(c) = as_const(*t) { for k in 0..n as usize { o.data[off + k] = (c >> (8 * k)) as u8; } } else { let t = if width(*t) % 8 != 0 { zext(*t, n as u32 * 8) } else { *t }; for k in 0..n as usize { o.syms.insert((off + k) as u32, (t, k as u8)); } } }
            V::A(_) => return unsup("store agg"),
        }
        Ok(())
    }
    fn copy(&mut self, st: &mut State, d: u64, s: u64, n: u64) -> R<()> {
        if n == 0 || d == s { return Ok(()); }
        let (so, soff) = self.obj(st, s, n)?;
        let (o, off) = self.obj_mut(st, d, n)?;
        let n = n as usize;
        // `so` may alias `o` only as an older Rc snapshot, so overlapping moves are fine
        o.data[off..off + n].copy_from_slice(&so.data[soff..soff + n]);
        if !o.syms.is_empty() { let ks: Vec<u32> = o.syms.range(off as u32..(off + n) as u32).map(|x| *x.0).collect(); for k in ks { o.syms.remove(&k); } }
        if !so.syms.is_empty() { for (k, v) in so.syms.range(soff as u32..(soff + n) as u32) { o.syms.insert(k - soff as u32 + off as u32, *v); } }
        Ok(())
    }
    fn byte(o: &Obj, off: usize) -> Tm { match o.syms.get(&(off as u32)) { Some((t, i)) => { let tw = width(*t); let lo = *i as u32 * 8; extract(*t, lo, 8.min(tw - lo)) } None => cst(o.data[off] as u128, 8) } }
    /// address operand: concrete, or a table of concrete addresses
    fn addr(&self, st: &State, v: &V) -> R<u64> { self.conc(st, v) }

    fn stack_names(&self, st: &State) -> Vec<String> { st.frames.iter().rev().take(12).map(|f| crate::demangle(&f.f.name)).collect() }

    // ---- reporting ------------------------------------------------------
    fn report(&mut self, st: &State, kind: &str, id: u32, known: u32, msg: String, model: &[u64]) {
        let stack = self.stack_names(st);
        let key = format!("{}/{}/{}/{}", kind, id, known, if kind == "check" { String::new() } else { msg.clone() });
        let c = self.report_keys.entry(key).or_insert(0); *c += 1;
        if *c <= 3 { self.reports.push(Report { kind: kind.into(), id, known, msg, inputs: st.input_vals(model), stack }); }
    }
    pub fn unknown_reports(&self) -> usize { self.reports.iter().filter(|r| r.known == 0).count() }
    /// paths that ran into a limit (each costs as much as thousands of ordinary paths)
    pub fn limit_hits(&self) -> usize { self.report_keys.iter().filter(|(k, _)| k.starts_with("limit/")).map(|(_, n)| *n as usize).sum() }

    pub fn finish(&mut self, st: &State, e: End) {
        self.t.paths += 1; self.t.steps += st.steps;
        match e {
            End::Done => {
                self.t.done += 1; self.max_done = self.max_done.max(st.steps);
                if self.cfg.leaf && self.t.done % 16 == 1 { self.t.leaf_confirm += 1; if self.z3.check(&st.pc, None).is_none() { eprintln!("llsx: INTERNAL completed path not satisfiable"); std::process::exit(3); } }
                for c in &st.covers { *self.covers.entry(*c).or_insert(0) += 1; }
                self.sample_ctr += 1;
                let n = self.sample_ctr;
                if self.samples.len() < self.cfg.samples || (n & (n - 1)) == 0 {
                    let m = st.model.clone();
                    let obs: Vec<u64> = st.obs.iter().map(|v| match v { V::C(c) => *c, V::T(t) => eval(*t, &m) as u64, _ => 0 }).collect();
                    let s = (st.input_vals(&m), obs);
                    if self.samples.len() < self.cfg.samples { self.samples.push(s); } else if self.cfg.samples > 0 { let k = (n as usize).trailing_zeros() as usize % self.cfg.samples; self.samples[k] = s; }
                }
            }
            End::Infeasible => self.t.infeasible += 1,
            End::Panic(m) => { let md = st.model.clone(); let k = (st.covers.contains(&90) && self.cfg.known_panic.iter().any(|p| m.contains(p.as_str()))) as u32; self.report(st, "panic", 0, k, m, &md) }
            End::Limit(m) => { let md = st.model.clone(); self.report(st, "limit", 0, 0, m, &md) }
            End::Oob(m) => { let md = st.model.clone(); self.report(st, "oob", 0, 0, m, &md) }
            End::Unsupported(m) => { let md = st.model.clone(); self.report(st, "unsupported", 0, 0, m, &md) }
        }
    }

    /// run one state until it ends or forks
    pub fn run(&mut self, mut st: State) -> Result<Vec<State>, (State, End)> {
        loop {
            if st.steps > self.cfg.max_steps { return Err((st, End::Limit("step limit (non-termination?)".into()))); }
            match self.step(&mut st) {
                Ok(Step::Next) => {}
                Ok(Step::Fork(v)) => { self.t.forks += 1; return Ok(v); }
                Ok(Step::End(e)) => return Err((st, e)),
                Err(Stop::End(e)) => return Err((st, e)),
                Err(Stop::Conc(t)) => {
                    match self.concretise(&st, t) { Ok(v) => { if v.len() == 1 { st = v.into_iter().next().unwrap(); } else { self.t.forks += 1; return Ok(v); } } Err(e) => return Err((st, e)) }
                }
            }
        }
    }
    fn concretise(&mut self, st: &State, t: Tm) -> Result<Vec<State>, End> {
        let w = width(t);
        let mut out = vec![];
        if let Some((v, x)) = as_tab(t) {
            let mut vals: Vec<u64> = m_iter(&st.dom(v)).into_iter().map(|i| x[i as usize]).collect(); vals.sort(); vals.dedup();
            for val in vals { let c = cmp(COp::Eq, t, cst(val as u128, w)); if let Some(m) = self.sat(st, c) { let mut s = st.clone(); s.add(c, m); s.known.insert(t, val); out.push(s); } }
        } else {
            let mut excl = st.clone();
            for _ in 0..300 {
                let val = eval(t, &excl.model) as u64;
                let c = cmp(COp::Eq, t, cst(val as u128, w));
                let mut s = st.clone(); s.add(c, excl.model.clone()); s.known.insert(t, val); out.push(s);
                let nc = cmp(COp::Ne, t, cst(val as u128, w));
                match self.sat(&excl, nc) { Some(m) => excl.add(nc, m), None => { return Ok(out); } }
            }
            return Err(End::Unsupported("concretisation of an unbounded term".into()));
        }
        Ok(out)
    }
    fn cond(&self, st: &State, v: &V) -> Tm { match v { V::C(c) => cst(*c as u128 & 1, 1), V::T(t) => st.simp(*t), _ => panic!() } }

    fn jump(&mut self, st: &mut State, to: u32) -> R<()> {
        let (f, from) = { let fr = st.frames.last().unwrap(); (fr.f.clone(), fr.blk) };
        let b = &f.blocks[to as usize];
        if !b.phis.is_empty() {
            let mut vals = Vec::with_capacity(b.phis.len());
            for (d, _, inc) in &b.phis { let o = inc.iter().find(|x| x.0 == from).map(|x| &x.1); match o { Some(o) => vals.push((*d, self.op(st, o))), None => return unsup("phi without incoming") } }
            let fr = st.frames.last_mut().unwrap();
            for (d, v) in vals { fr.regs[d as usize] = v; }
        }
        let fr = st.frames.last_mut().unwrap(); fr.blk = to; fr.ip = 0;
        self.hit(&f, to);
        Ok(())
    }

    fn step(&mut self, st: &mut State) -> R<Step> {
        st.steps += 1; self.t.xsteps += 1;
        let (f, blk, ip) = { let fr = st.frames.last().unwrap(); (fr.f.clone(), fr.blk, fr.ip) };
        let ins = &f.blocks[blk as usize].ins[ip as usize];
        match ins {
            I::Bin(op, ty, d, a, b) => {
                let (a, b) = (self.op(st, a), self.op(st, b));
                let v = if let Some((n, t)) = Self::lanes(ty) { V::A(Rc::new((0..n as usize).map(|i| self.bin_v(*op, t.w(), &Self::lane(&a, i), &Self::lane(&b, i))).collect())) } else { self.bin_v(*op, ty.w(), &a, &b) };
                self.set(st, *d, v);
            }
            I::Cmp(op, ty, d, a, b) => {
                let (a, b) = (self.op(st, a), self.op(st, b));
                let v = if let Some((n, t)) = Self::lanes(ty) { V::A(Rc::new((0..n as usize).map(|i| self.cmp_v(*op, t.w(), &Self::lane(&a, i), &Self::lane(&b, i))).collect())) } else { self.cmp_v(*op, ty.w(), &a, &b) };
                self.set(st, *d, v);
            }
            I::Cast(k, ft, tt, d, a) => {
                let a = self.op(st, a);
                let v = if let (Some((n, t1)), Some((_, t2))) = (Self::lanes(ft), Self::lanes(tt)) { V::A(Rc::new((0..n as usize).map(|i| self.cast_v(*k, t1.w(), t2.w(), &Self::lane(&a, i))).collect())) } else { self.cast_v(*k, ft.w(), tt.w(), &a) };
                self.set(st, *d, v);
            }
            I::Load(ty, d, p) => {
                let pv = self.op(st, p);
                let v = match self.addr(st, &pv) {
                    Ok(a) => self.load(st, a, ty)?,
                    Err(Stop::Conc(t)) if ty.scalar() && ty.w() <= 64 => {
                        // table of addresses over one finite variable: read each concretely
                        match as_tab(t) {
                            Some((v, x)) => {
                                let dom = st.dom(v); let mut outv = vec![0u64; x.len()]; let mut ok = true; let mut firstv = None;
                                let mut memo: HashMap<u64, u64> = HashMap::default();
                                for i in m_iter(&dom) { if let Some(c) = memo.get(&x[i as usize]) { outv[i as usize] = *c; continue; } match self.load(st, x[i as usize], ty)? { V::C(c) => { outv[i as usize] = c; memo.insert(x[i as usize], c); if firstv.is_none() { firstv = Some(c); } } _ => { ok = false; break; } } }
                                if !ok { return Err(Stop::Conc(t)); }
                                for i in 0..x.len() { if !m_has(&dom, i as u64) { outv[i] = firstv.unwrap_or(0); } }
                                Self::vt(tab(v, outv, ty.w()))
                            }
                            None => return Err(Stop::Conc(t)),
                        }
                    }
                    Err(e) => return Err(e),
                };
                self.set(st, *d, v);
            }
            I::Store(ty, v, p) => { let pv = self.op(st, p); let a = self.addr(st, &pv)?; let v = self.op(st, v); self.store(st, a, ty, &v)?; }
            I::Gep(d, base, off, idx) => {
                let b = self.op(st, base);
                let mut acc = self.bin_v(BOp::Add, 64, &b, &V::C(*off as u64));
                for (o, sc, w) in idx { let i = self.op(st, o); let i = self.cast_v(if *w < 64 { Cast::SExt } else { Cast::Same }, *w, 64, &i); let m = if *sc == 1 { i } else { self.bin_v(BOp::Mul, 64, &i, &V::C(*sc as u64)) }; acc = self.bin_v(BOp::Add, 64, &acc, &m); }
                self.set(st, *d, acc);
            }
            I::Select(ty, d, c, a, b, vec) => {
                let c = self.op(st, c); let (a, b) = (self.op(st, a), self.op(st, b));
                let v = if *vec { let (n, t) = Self::lanes(ty).unwrap(); V::A(Rc::new((0..n as usize).map(|i| { let ct = Self::tm(&Self::lane(&c, i), 1); self.sel(ct, &Self::lane(&a, i), &Self::lane(&b, i), &t) }).collect())) }
                else { let ct = self.cond(st, &c); match as_const(ct) { Some(1) => a, Some(_) => b, None => self.sel(ct, &a, &b, ty) } };
                self.set(st, *d, v);
            }
            I::ExtractValue(d, a, ix) => { let mut v = self.op(st, a); for i in ix { v = match &v { V::A(f) => f[*i as usize].clone(), _ => return unsup("extractvalue") }; } self.set(st, *d, v); }
            I::InsertValue(d, a, _t, v, ix) => { let av = self.op(st, a); let nv = self.op(st, v); let r = ins_at(&av, ix, nv); self.set(st, *d, r); }
            I::Alloca(d, o) => { let a = SBASE + ((st.frames.len() as u64 - 1) << SHIFT) + o; self.set(st, *d, V::C(a)); }
            I::Freeze(d, a) => { let v = self.op(st, a); self.set(st, *d, v); }
            I::ExtractElt(d, a, i) => { let v = self.op(st, a); let i = self.op(st, i); let i = self.conc(st, &i)?; self.set(st, *d, Self::lane(&v, i as usize)); }
            I::InsertElt(d, a, v, i) => { let av = self.op(st, a); let v = self.op(st, v); let i = self.op(st, i); let i = self.conc(st, &i)?; if let V::A(x) = av { let mut y = (*x).clone(); y[i as usize] = v; self.set(st, *d, V::A(Rc::new(y))); } }
            I::Shuffle(d, a, b, m, n) => { let (a, b) = (self.op(st, a), self.op(st, b)); let r = m.iter().map(|k| if (*k as u64) < *n { Self::lane(&a, *k as usize) } else { Self::lane(&b, (*k as u64 - n) as usize) }).collect(); self.set(st, *d, V::A(Rc::new(r))); }
            I::Rmw(op, ty, d, p, v) => {
                let pv = self.op(st, p); let a = self.addr(st, &pv)?; let v = self.op(st, v); let old = self.load(st, a, ty)?;
                let nv = match op.as_str() { "xchg" => v, "add" => self.bin_v(BOp::Add, ty.w(), &old, &v), "sub" => self.bin_v(BOp::Sub, ty.w(), &old, &v), "or" => self.bin_v(BOp::Or, ty.w(), &old, &v), "and" => self.bin_v(BOp::And, ty.w(), &old, &v), "xor" => self.bin_v(BOp::Xor, ty.w(), &old, &v), o => return unsup(format!("atomicrmw {}", o)) };
                self.store(st, a, ty, &nv)?; if *d != u32::MAX { self.set(st, *d, old); }
            }
            I::CmpXchg(ty, d, p, c, n) => {
                let pv = self.op(st, p); let a = self.addr(st, &pv)?; let old = self.load(st, a, ty)?; let c = self.op(st, c); let (o1, c1) = (self.conc(st, &old)?, self.conc(st, &c)?);
                let ok = o1 == c1; if ok { let n = self.op(st, n); self.store(st, a, ty, &n)?; }
                self.set(st, *d, V::A(Rc::new(vec![old, V::C(ok as u64)])));
            }
            I::Nop => {}
            I::Br(l) => { self.jump(st, *l)?; return Ok(Step::Next); }
            I::CondBr(c, a, b) => {
                let c = self.op(st, c); let ct = self.cond(st, &c);
                if let Some(v) = as_const(ct) { self.jump(st, if v == 1 { *a } else { *b })?; return Ok(Step::Next); }
                let mut ct = ct;
                if self.cfg.atomize && as_tab(ct).is_none() {
                    // a condition over several finite variables is decided one atom at a time
                    ct = st.deep(ct, &mut HashMap::default());
                    if let Some(v) = as_const(ct) { self.jump(st, if v == 1 { *a } else { *b })?; return Ok(Step::Next); }
                    if let Some(x) = atom(ct) { if as_tab(ct).is_none() {
                        let nx = not(x);
                        if let (Some(m1), Some(m2)) = (self.sat(st, x), self.sat(st, nx)) {
                            let mut s2 = st.clone(); s2.add(nx, m2); let mut s1 = std::mem::replace(st, dummy()); s1.add(x, m1);
                            return Ok(Step::Fork(vec![s1, s2]));
                        }
                    } }
                }
                let nt = not(ct);
                let (mt, mf) = (self.sat(st, ct), self.sat(st, nt));
                match (mt, mf) {
                    (Some(m1), Some(m2)) => {
                        let mut s2 = st.clone(); s2.add(nt, m2); self.jump(&mut s2, *b)?;
                        let mut s1 = std::mem::replace(st, dummy()); s1.add(ct, m1); self.jump(&mut s1, *a)?;
                        return Ok(Step::Fork(vec![s1, s2]));
                    }
                    (Some(_), None) => { self.jump(st, *a)?; }
                    (None, Some(_)) => { self.jump(st, *b)?; }
                    (None, None) => return Ok(Step::End(End::Infeasible)),
                }
                return Ok(Step::Next);
            }
            I::Switch(ty, v, d, cs) => {
                let v = self.op(st, v);
                let t = match &v { V::C(c) => { let l = cs.iter().find(|x| x.0 == *c).map(|x| x.1).unwrap_or(*d); self.jump(st, l)?; return Ok(Step::Next); } V::T(t) => st.simp(*t), _ => return unsup("switch agg") };
                if let Some(c) = as_const(t) { let l = cs.iter().find(|x| x.0 as u128 == c).map(|x| x.1).unwrap_or(*d); self.jump(st, l)?; return Ok(Step::Next); }
                let w = ty.w();
                let mut groups: Vec<(u32, Tm)> = vec![]; let mut deft = tru();
                for (c, l) in cs {
                    let e = cmp(COp::Eq, t, cst(*c as u128, w)); if as_const(e) == Some(0) { continue; }
                    deft = bin(BOp::And, deft, not(e));
                    if *l == *d { continue; }
                    match groups.iter_mut().find(|g| g.0 == *l) { Some(g) => g.1 = bin(BOp::Or, g.1, e), None => groups.push((*l, e)) }
                }
                // cases that go to the default block are part of the default group
                let mut dg = deft; for (c, l) in cs { if *l == *d { dg = bin(BOp::Or, dg, cmp(COp::Eq, t, cst(*c as u128, w))); } }
                groups.push((*d, dg));
                let mut feas = vec![];
                for (l, c) in groups { if let Some(m) = self.sat(st, c) { feas.push((l, c, m)); } }
                if feas.is_empty() { return Ok(Step::End(End::Infeasible)); }
                if feas.len() == 1 { self.jump(st, feas[0].0)?; return Ok(Step::Next); }
                let mut out = vec![];
                for (l, c, m) in feas { let mut s = st.clone(); s.add(c, m); self.jump(&mut s, l)?; out.push(s); }
                return Ok(Step::Fork(out));
            }
            I::Ret(v, _t) => {
                let rv = v.as_ref().map(|v| self.op(st, v));
                let fr = st.frames.pop().unwrap();
                if st.frames.is_empty() { return Ok(Step::End(End::Done)); }
                if let (Some(d), Some(v)) = (fr.dst, rv) { self.set(st, d, v); }
                if let Some(n) = fr.normal { self.jump(st, n)?; }
                return Ok(Step::Next);
            }
            I::Unreachable => return Ok(Step::End(End::Panic("unreachable code executed".into()))),
            I::Unsupported(s) => return unsup(s.trim().to_string()),
            I::Call { dst, ret, callee, args, normal } => {
                let fid = match callee { Callee::Direct(f) => *f, Callee::Ind(o) => { let a = self.op(st, o); let a = self.conc(st, &a)?; if a < FBASE || a >= GBASE { return unsup("indirect call to non-function"); } ((a - FBASE) >> 4) as u32 } };
                let av: Vec<V> = args.iter().map(|(_, o)| self.op(st, o)).collect();
                return self.call(st, fid, av, args, *dst, ret, *normal);
            }
        }
        st.frames.last_mut().unwrap().ip += 1;
        Ok(Step::Next)
    }

    fn kind(&mut self, fid: u32) -> Rc<Kind> {
        if let Some(k) = self.kinds.get(&fid) { return k.clone(); }
        let n = self.m.fname(fid);
        let k = if n.starts_with("sx_") || n.starts_with("llvm.") || matches!(n.as_str(), "memcmp" | "bcmp" | "memcpy" | "memmove" | "memset" | "strlen") { Kind::Builtin(n.clone()) }
            else if n.ends_with("___rust_alloc") { Kind::Alloc } else if n.ends_with("___rust_alloc_zeroed") { Kind::AllocZ } else if n.ends_with("___rust_dealloc") { Kind::Dealloc } else if n.ends_with("___rust_realloc") { Kind::Realloc }
            else if n.contains("___rust_no_alloc_shim_is_unstable") { Kind::Skip }
            else if n.contains("9panicking9panic_fmt") || n.contains("9panicking18panic_nounwind_fmt") || n.contains("rust_begin_unwind") || n.contains("18handle_alloc_error") || n.contains("7process5abort") || n.contains("3sys13abort_internal") || n == "abort" || n.contains("rust_foreign_exception") || n.contains("7process4exit") || n == "exit" || n.contains("9panicking19assert_failed_inner") || n.contains("8raw_vec17capacity_overflow") { Kind::Panic }
            else if self.cfg.skip.iter().any(|p| pat(&n, p)) && (!n.contains("9drop_glue") || plain_drop(&n)) { Kind::Skip }
            else if self.cfg.copy_clone.iter().any(|p| pat(&n, p)) { let t = self.m.text.clone(); let key = format!("@{}(", n); let sz = t.match_indices(&key).filter_map(|(i, _)| { let l = &t[i..(i + 600).min(t.len())]; l.find("sret([").and_then(|k| l[k + 6..].split(' ').next().and_then(|x| x.parse::<u64>().ok())) }).next(); match sz { Some(s) => Kind::CopyClone(s), None => Kind::Normal } }
            else if self.cfg.tabulate.iter().any(|p| pat(&n, p)) { Kind::Tabulate }
            else if let Some((_, to)) = self.cfg.redirect.iter().find(|(p, _)| pat(&n, p)) { let to = to.clone(); Kind::Redirect(self.m.fid(&to)) }
            else { Kind::Normal };
        let k = Rc::new(k); self.kinds.insert(fid, k.clone());
        k
    }
    fn ret_next(&mut self, st: &mut State, dst: Option<u32>, normal: Option<u32>, v: Option<V>) -> R<Step> {
        if let (Some(d), Some(v)) = (dst, v) { self.set(st, d, v); }
        match normal { Some(n) => self.jump(st, n)?, None => st.frames.last_mut().unwrap().ip += 1 }
        Ok(Step::Next)
    }
    fn call(&mut self, st: &mut State, fid: u32, av: Vec<V>, at: &[(Ty, Op)], dst: Option<u32>, ret: &Ty, normal: Option<u32>) -> R<Step> {
        let kd = self.kind(fid);
        match &*kd {
            Kind::Normal => {}
            Kind::Skip => { self.funcs_hit.insert(fid); return self.ret_next(st, dst, normal, None); }
            Kind::CopyClone(n) => { self.funcs_hit.insert(fid); let (d, s) = (self.conc(st, &av[0])?, self.conc(st, &av[1])?); self.copy(st, d, s, *n)?; return self.ret_next(st, dst, normal, None); }
            Kind::Redirect(to) => { return self.enter(st, *to, av, dst, normal); }
            Kind::Tabulate => {
                // pure single-argument function of a table term: tabulate it by running the real code per value
                if av.len() == 1 { if let V::T(t) = &av[0] { let t = st.simp(*t); if let Some((v, x)) = as_tab(t) {
                    let dom = st.dom(v); let mut out = vec![0u64; x.len()]; let mut last = 0;
                    for i in m_iter(&dom) { let val = x[i as usize];
                        let r = if let Some(r) = self.tabmemo.get(&(fid, val)) { *r } else { let r = self.pure_call(st, fid, val)?; self.tabmemo.insert((fid, val), r); r };
                        out[i as usize] = r; last = r; }
                    for i in 0..x.len() { if !m_has(&dom, i as u64) { out[i] = last; } }
                    let w = ret.w(); self.funcs_hit.insert(fid);
                    return self.ret_next(st, dst, normal, Some(Self::vt(tab(v, out, w))));
                } } }
            }
            Kind::Panic => {
                let n = crate::demangle(&self.m.fname(fid));
                let mut loc = String::new();
                if let Some(l) = av.last() { if let V::C(a) = l { let pt = Ty::Ptr; if let (Ok(V::C(fp)), Ok(V::C(fl)), Ok(V::C(ln))) = (self.load(st, *a, &pt), self.load(st, *a + 8, &Ty::Int(64)), self.load(st, *a + 16, &Ty::Int(32))) { if fl < 300 { if let Ok((o, off)) = self.obj(st, fp, fl) { loc = format!("{}:{}", String::from_utf8_lossy(&o.data[off..off + fl as usize]), ln); } } } } }
                let names: Vec<String> = st.frames.iter().rev().take(6).map(|f| crate::demangle(&f.f.name)).collect();
                return Ok(Step::End(End::Panic(format!("{} at {} in {}", n, loc, names.join(" < ")))));
            }
            Kind::Alloc | Kind::AllocZ => { let n = self.conc(st, &av[0])?; if n > 1 << 26 { return Ok(Step::End(End::Limit("huge allocation".into()))); } let a = self.alloc(st, n); return self.ret_next(st, dst, normal, Some(V::C(a))); }
            Kind::Dealloc => return self.ret_next(st, dst, normal, None),
            Kind::Realloc => { let (p, old, new) = (self.conc(st, &av[0])?, self.conc(st, &av[1])?, self.conc(st, &av[3])?); if new > 1 << 26 { return Ok(Step::End(End::Limit("huge allocation".into()))); } let a = self.alloc(st, new); self.copy(st, a, p, old.min(new))?; return self.ret_next(st, dst, normal, Some(V::C(a))); }
            Kind::Builtin(n) => return self.builtin(st, n, av, at, dst, ret, normal),
        }
        self.enter(st, fid, av, dst, normal)
    }
    fn enter(&mut self, st: &mut State, fid: u32, av: Vec<V>, dst: Option<u32>, normal: Option<u32>) -> R<Step> {
        let f = match self.m.func(fid) { Some(f) => f, None => return unsup(format!("call of external {}", crate::demangle(&self.m.fname(fid)))) };
        if st.frames.len() >= self.cfg.max_depth { return Ok(Step::End(End::Limit(format!("recursion depth {} (unbounded recursion?) in {}", st.frames.len(), crate::demangle(&f.name))))); }
        if normal.is_none() { st.frames.last_mut().unwrap().ip += 1; }
        self.push_frame(st, f, av, dst, normal);
        Ok(Step::Next)
    }
    fn pure_call(&mut self, st: &State, fid: u32, val: u64) -> R<u64> {
        let f = match self.m.func(fid) { Some(f) => f, None => return unsup("tabulate external") };
        let mut s = State { heap: vec![], globals: st.globals.clone(), frames: vec![], pc: vec![], doms: vec![], mixed: vec![], model: vec![], inputs: vec![], known: HashMap::default(), obs: vec![], covers: vec![], steps: 0 };
        // two frames so that the return value lands in a register of a pseudo caller
        let caller = Frame { f: f.clone(), blk: 0, ip: 0, regs: vec![V::C(0); (f.nslots + 1) as usize], dst: None, rty: 0, normal: None, mem: Rc::new(Obj::default()) };
        s.frames.push(caller);
        self.push_frame(&mut s, f.clone(), vec![V::C(val)], Some(f.nslots), None);
        loop {
            match self.step(&mut s)? { Step::Next => {} _ => return unsup("tabulate: not pure") }
            if s.frames.len() == 1 { return match &s.frames[0].regs[f.nslots as usize] { V::C(c) => Ok(*c), _ => unsup("tabulate: symbolic result") }; }
            if s.steps > 100000 { return unsup("tabulate: too long"); }
        }
    }

    fn builtin(&mut self, st: &mut State, n: &str, av: Vec<V>, at: &[(Ty, Op)], dst: Option<u32>, ret: &Ty, normal: Option<u32>) -> R<Step> {
        let w0 = at.first().map(|a| a.0.w()).unwrap_or(0);
        let mut out: Option<V> = None;
        if let Some(s) = n.strip_prefix("sx_") {
            match s {
                "u8" | "u32" | "bool" => {
                    let k = st.inputs.len();
                    let v = match s { "u8" => new_var(8, 256, &format!("b{}", k)), "bool" => new_var(8, 2, &format!("f{}", k)), _ => new_var(32, 0, &format!("w{}", k)) };
                    st.inputs.push(v);
                    while st.model.len() <= v as usize { st.model.push(0); }
                    let t = var_term(v);
                    out = Some(Self::vt(if s == "bool" { extract(t, 0, 1) } else { t }));
                }
                "pick" => { // uniform choice 0..n, n concrete <= 256
                    let c = self.conc(st, &av[0])?; if c == 0 { return Ok(Step::End(End::Infeasible)); }
                    let k = st.inputs.len(); let v = new_var(16, c as u32, &format!("p{}_{}", k, c));
                    st.inputs.push(v); while st.model.len() <= v as usize { st.model.push(0); }
                    st.model[v as usize] = 0;
                    out = Some(Self::vt(zext(var_term(v), 32)));
                }
                "assume" => {
                    let c = self.cond(st, &av[0]);
                    match self.sat(st, c) { Some(m) => st.add(c, m), None => return Ok(Step::End(End::Infeasible)) }
                }
                "check" => {
                    let c = self.cond(st, &av[0]); let id = self.conc(st, &av[1])? as u32; let known = self.conc(st, &av[2])? as u32;
                    self.t.checks += 1;
                    if as_const(c) == Some(1) { self.t.checks_const += 1; }
                    else {
                        self.t.checks_smt += 1;
                        let nc = not(c);
                        // the verdict is the SMT solver's, over the whole path condition
                        if let Some(m) = self.z3.check(&st.pc, Some(nc)) { let id2 = id; self.report(st, "check", id2, known, String::new(), &m); }
                        // nothing is assumed: what fails one check is still subject to the later ones
                    }
                }
                "cover" => { let id = self.conc(st, &av[0])? as u32; if !st.covers.contains(&id) { st.covers.push(id); } }
                "obs" => st.obs.push(av[0].clone()),
                "conc" => { let c = self.conc(st, &av[0])?; out = Some(V::C(c)); }
                "is_native" => out = Some(V::C(0)),
                "dbg" => { let m = st.model.clone(); let v = match &av[0] { V::C(c) => *c, V::T(t) => eval(*t, &m) as u64, _ => 0 }; eprintln!("dbg {} {}", v, matches!(av[0], V::T(_))); }
                _ => return unsup(n),
            }
            return self.ret_next(st, dst, normal, out);
        }
        let base = n.strip_prefix("llvm.").unwrap_or(n);
        if base.starts_with("lifetime") || base.starts_with("assume") || base.starts_with("experimental.noalias") || base.starts_with("dbg") || base.starts_with("prefetch") || base.starts_with("x86.sse2.pause") || base.starts_with("invariant") { return self.ret_next(st, dst, normal, Some(V::C(0))); }
        if base.starts_with("memcpy") || base.starts_with("memmove") {
            let (d, s, l) = (self.conc(st, &av[0])?, self.conc(st, &av[1]), self.conc(st, &av[2])?);
            let s = s?; self.copy(st, d, s, l)?;
            if n == base { out = Some(V::C(d)); }
            return self.ret_next(st, dst, normal, out);
        }
        if base.starts_with("memset") {
            let (d, l) = (self.conc(st, &av[0])?, self.conc(st, &av[2])?);
            let v = av[1].clone(); let v = if n == base { self.cast_v(Cast::Trunc, 32, 8, &v) } else { v };
            for k in 0..l { self.store(st, d + k, &Ty::Int(8), &v)?; }
            return self.ret_next(st, dst, normal, Some(V::C(d)));
        }
        if base == "memcmp" || base == "bcmp" {
            let (a, b, l) = (self.conc(st, &av[0])?, self.conc(st, &av[1])?, self.conc(st, &av[2])? as usize);
            if l == 0 { return self.ret_next(st, dst, normal, Some(V::C(0))); }
            let (oa, fa) = self.obj(st, a, l as u64)?; let (ob, fb) = self.obj(st, b, l as u64)?;
            let mut r = cst(0, 32);
            if base == "bcmp" {
                let mut eq = tru();
                for k in 0..l { let e = cmp(COp::Eq, Self::byte(&oa, fa + k), Self::byte(&ob, fb + k)); if as_const(e) == Some(0) { eq = fls(); break; } eq = bin(BOp::And, eq, e); }
                r = zext(not(eq), 32);
            } else {
                for k in (0..l).rev() { let (x, y) = (Self::byte(&oa, fa + k), Self::byte(&ob, fb + k)); r = ite(cmp(COp::Eq, x, y), r, ite(cmp(COp::Ult, x, y), cst(0xffff_ffff, 32), cst(1, 32))); }
            }
            return self.ret_next(st, dst, normal, Some(Self::vt(r)));
        }
        let bin2 = |e: &Exec, f: &dyn Fn(&Exec, u32, &V, &V) -> V| -> V {
            if let Some((k, t)) = Self::lanes(&at[0].0) { V::A(Rc::new((0..k as usize).map(|i| f(e, t.w(), &Self::lane(&av[0], i), &Self::lane(&av[1], i))).collect())) } else { f(e, w0, &av[0], &av[1]) }
        };
        let mm = |op: COp| move |e: &Exec, w: u32, a: &V, b: &V| -> V { let c = Self::tm(&e.cmp_v(op, w, a, b), 1); e.sel(c, a, b, &Ty::Int(w)) };
        if base.starts_with("umin.") { out = Some(bin2(self, &mm(COp::Ult))); }
        else if base.starts_with("umax.") { out = Some(bin2(self, &mm(COp::Ugt))); }
        else if base.starts_with("smin.") { out = Some(bin2(self, &mm(COp::Slt))); }
        else if base.starts_with("smax.") { out = Some(bin2(self, &mm(COp::Sgt))); }
        else if base.starts_with("expect") { out = Some(av[0].clone()); }
        else if base.starts_with("is.constant") { out = Some(V::C(0)); }
        else if base.starts_with("threadlocal.address") { out = Some(av[0].clone()); }
        else if base.starts_with("trap") || base.starts_with("ubsantrap") { return Ok(Step::End(End::Panic("trap".into()))); }
        else if base.starts_with("uadd.sat") { let s = self.bin_v(BOp::Add, w0, &av[0], &av[1]); let c = Self::tm(&self.cmp_v(COp::Ult, w0, &s, &av[0]), 1); out = Some(self.sel(c, &V::C(maskw(w0) as u64), &s, &Ty::Int(w0))); }
        else if base.starts_with("usub.sat") { let s = self.bin_v(BOp::Sub, w0, &av[0], &av[1]); let c = Self::tm(&self.cmp_v(COp::Ult, w0, &av[0], &av[1]), 1); out = Some(self.sel(c, &V::C(0), &s, &Ty::Int(w0))); }
        else if base.contains(".with.overflow") {
            let (a, b) = (Self::tm(&av[0], w0), Self::tm(&av[1], w0));
            let signed = base.starts_with('s');
            let op = if base[1..].starts_with("add") { BOp::Add } else if base[1..].starts_with("sub") { BOp::Sub } else { BOp::Mul };
            let ww = if op == BOp::Mul { w0 * 2 } else { w0 + 2 };
            if ww > 128 { return unsup(n); }
            let ex = |t: Tm| if signed { sxt(t, ww) } else { zext(t, ww) };
            let r = bin(op, ex(a), ex(b)); let lo = extract(r, 0, w0);
            let ov = cmp(COp::Ne, r, ex(lo));
            out = Some(V::A(Rc::new(vec![Self::vt(lo), Self::vt(ov)])));
        }
        else if base.starts_with("ctpop") || base.starts_with("ctlz") || base.starts_with("cttz") || base.starts_with("bswap") || base.starts_with("bitreverse") {
            let f = |x: u128| -> u128 { match &base[..4] { "ctpo" => x.count_ones() as u128, "ctlz" => (x.leading_zeros() - (128 - w0)) as u128, "cttz" => x.trailing_zeros().min(w0) as u128, "bswa" => x.swap_bytes() >> (128 - w0), _ => x.reverse_bits() >> (128 - w0) } };
            match &av[0] { V::C(c) => out = Some(V::C(f(*c as u128) as u64)), V::T(t) => { let t = st.simp(*t); if let Some((v, x)) = as_tab(t) { out = Some(Self::vt(tab(v, x.iter().map(|e| f(*e as u128) as u64).collect(), w0))); } else { return Err(Stop::Conc(t)); } } _ => return unsup(n) }
        }
        else if base.starts_with("fshl") || base.starts_with("fshr") { let s = self.conc(st, &av[2])? % w0 as u64; let s = if base.starts_with("fshr") { (w0 as u64 - s) % w0 as u64 } else { s };
            if s == 0 { out = Some(if base.starts_with("fshr") { av[1].clone() } else { av[0].clone() }); } else { let h = self.bin_v(BOp::Shl, w0, &av[0], &V::C(s)); let l = self.bin_v(BOp::LShr, w0, &av[1], &V::C(w0 as u64 - s)); out = Some(self.bin_v(BOp::Or, w0, &h, &l)); } }
        else if base.starts_with("abs.") { let c = Self::tm(&self.cmp_v(COp::Slt, w0, &av[0], &V::C(0)), 1); let neg = self.bin_v(BOp::Sub, w0, &V::C(0), &av[0]); out = Some(self.sel(c, &neg, &av[0], &Ty::Int(w0))); }
        else if base.starts_with("ucmp") || base.starts_with("scmp") { let (lt, gt) = if base.starts_with('u') { (COp::Ult, COp::Ugt) } else { (COp::Slt, COp::Sgt) }; let l = Self::tm(&self.cmp_v(lt, w0, &av[0], &av[1]), 1); let g = Self::tm(&self.cmp_v(gt, w0, &av[0], &av[1]), 1); let rw = ret.w(); out = Some(Self::vt(ite(l, cst(u128::MAX, rw), ite(g, cst(1, rw), cst(0, rw))))); }
        else if base.starts_with("vector.reduce.") {
            let (k, t) = Self::lanes(&at[0].0).unwrap(); let w = t.w(); let mut acc = Self::lane(&av[0], 0);
            for i in 1..k as usize { let l = Self::lane(&av[0], i); acc = if base.contains("add") { self.bin_v(BOp::Add, w, &acc, &l) } else if base.contains(".or") { self.bin_v(BOp::Or, w, &acc, &l) } else if base.contains(".and") { self.bin_v(BOp::And, w, &acc, &l) } else { return unsup(n); }; }
            out = Some(acc);
        }
        else { return unsup(format!("builtin {}", n)); }
        self.ret_next(st, dst, normal, out)
    }
}
fn ins_at(a: &V, ix: &[u64], v: V) -> V {
    if ix.is_empty() { return v; }
    match a { V::A(x) => { let mut y = (**x).clone(); y[ix[0] as usize] = ins_at(&x[ix[0] as usize], &ix[1..], v); V::A(Rc::new(y)) } _ => panic!("insertvalue") }
}
fn dummy() -> State { State { heap: vec![], globals: HashMap::default(), frames: vec![], pc: vec![], doms: vec![], mixed: vec![], model: vec![], inputs: vec![], known: HashMap::default(), obs: vec![], covers: vec![], steps: 0 } }

/// drop glue of a type built only from owned tokens, nodes and standard containers (nothing whose drop does more than free)
fn plain_drop(n: &str) -> bool {
    let b = n.as_bytes(); let mut i = 2;
    const OK: [&str; 24] = ["core", "ptr", "drop_glue", "alloc", "boxed", "Box", "vec", "Vec", "into_iter", "IntoIter", "option", "Option", "result", "Result", "string", "String", "pcr", "parser", "tokens", "Token", "nodes", "ASTNode", "trivias", "Trivia"];
    while i < b.len() {
        match b[i] {
            b's' | b'B' => { i += 1; while i < b.len() && b[i] != b'_' { i += 1; } i += 1; }
            b'0'..=b'9' => {
                let mut k = 0usize; while i < b.len() && b[i].is_ascii_digit() { k = k * 10 + (b[i] - b'0') as usize; i += 1; }
                if i < b.len() && b[i] == b'_' { i += 1; }
                if i + k > n.len() || !OK.contains(&&n[i..i + k]) { return false; }
                i += k;
            }
            _ => i += 1,
        }
    }
    true
}
