//! Minimal binding to libz3 (QF_BV, incremental push/pop mirroring the path condition).
use crate::term::*;
use crate::fx::HashMap;
use std::ffi::c_void;
use std::os::raw::{c_char, c_int, c_uint};
use std::time::Instant;

type P = *mut c_void;
#[link(name = "z3")]
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_mk_context(c: P) -> P;
    fn Z3_mk_int_symbol(c: P, i: c_int) -> P;
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_bv_sort(c: P, n: c_uint) -> P;
    fn Z3_mk_const(c: P, s: P, t: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_unsigned_int64(c: P, v: u64, s: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_zero_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvule(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsle(c: P, a: P, b: P) -> P;
    fn Z3_mk_solver_for_logic(c: P, s: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_push(c: P, s: P);
    fn Z3_solver_pop(c: P, s: P, n: c_uint);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, t: P, compl: bool, v: *mut P) -> bool;
    fn Z3_get_numeral_uint64(c: P, v: P, u: *mut u64) -> bool;
    fn Z3_set_error_handler(c: P, h: *const c_void);
    fn Z3_get_full_version() -> *const c_char;
}

#[derive(Default, Clone)]
pub struct Stats { pub queries: u64, pub sat: u64, pub unsat: u64, pub time_us: u64, pub max_us: u64 }

pub struct Z3 { c: P, s: P, stack: Vec<Tm>, cache: HashMap<Tm, P>, pub st: Stats }

pub fn version() -> String { unsafe { std::ffi::CStr::from_ptr(Z3_get_full_version()).to_string_lossy().into_owned() } }

impl Z3 {
    pub fn new() -> Z3 {
        unsafe {
            let c = Z3_mk_context(Z3_mk_config());
            Z3_set_error_handler(c, std::ptr::null());
            let s = Z3_mk_solver_for_logic(c, Z3_mk_string_symbol(c, b"QF_BV\0".as_ptr() as *const c_char));
            Z3_solver_inc_ref(c, s);
            Z3 { c, s, stack: vec![], cache: HashMap::default(), st: Stats::default() }
        }
    }
    fn num(&self, v: u128, w: u32) -> P {
        unsafe {
            if w <= 64 { Z3_mk_unsigned_int64(self.c, v as u64, Z3_mk_bv_sort(self.c, w)) }
            else { let hi = Z3_mk_unsigned_int64(self.c, (v >> 64) as u64, Z3_mk_bv_sort(self.c, w - 64)); let lo = Z3_mk_unsigned_int64(self.c, v as u64, Z3_mk_bv_sort(self.c, 64)); Z3_mk_concat(self.c, hi, lo) }
        }
    }
    fn var(&self, v: u32) -> P { let vi = var_n(v); unsafe { Z3_mk_const(self.c, Z3_mk_int_symbol(self.c, v as c_int), Z3_mk_bv_sort(self.c, vi.width)) } }
    /// formula "var in set"
    fn set(&self, v: u32, m: &Mask) -> P {
        unsafe {
            let vi = var_n(v); let x = self.var(v);
            let mut ors: Vec<P> = vec![]; let mut i = 0u64; let n = vi.n as u64;
            while i < n {
                if m_has(m, i) { let s = i; while i < n && m_has(m, i) { i += 1; }
                    let e = i - 1;
                    if s == e { ors.push(Z3_mk_eq(self.c, x, self.num(s as u128, vi.width))); }
                    else { let a = [Z3_mk_bvule(self.c, self.num(s as u128, vi.width), x), Z3_mk_bvule(self.c, x, self.num(e as u128, vi.width))]; ors.push(Z3_mk_and(self.c, 2, a.as_ptr())); }
                } else { i += 1; }
            }
            Z3_mk_or(self.c, ors.len() as c_uint, ors.as_ptr())
        }
    }
    /// boolean formula for a width-1 term
    fn fml(&mut self, t: Tm) -> P {
        let (n, _) = node(t);
        unsafe {
            match n {
                Node::Tab(v, x) => self.set(v, &tab_mask(&x)),
                Node::Cmp(op, a, b) => {
                    let (x, y) = (self.bv(a), self.bv(b)); let c = self.c;
                    match op { COp::Eq => Z3_mk_eq(c, x, y), COp::Ne => Z3_mk_not(c, Z3_mk_eq(c, x, y)), COp::Ult => Z3_mk_bvult(c, x, y), COp::Ule => Z3_mk_bvule(c, x, y),
                        COp::Ugt => Z3_mk_bvult(c, y, x), COp::Uge => Z3_mk_bvule(c, y, x), COp::Slt => Z3_mk_bvslt(c, x, y), COp::Sle => Z3_mk_bvsle(c, x, y),
                        COp::Sgt => Z3_mk_bvslt(c, y, x), COp::Sge => Z3_mk_bvsle(c, y, x) }
                }
                Node::Bin(BOp::And, a, b) => { let z = [self.fml(a), self.fml(b)]; Z3_mk_and(self.c, 2, z.as_ptr()) }
                Node::Bin(BOp::Or, a, b) => { let z = [self.fml(a), self.fml(b)]; Z3_mk_or(self.c, 2, z.as_ptr()) }
                Node::Bin(BOp::Xor, a, b) if as_const(b) == Some(1) => { let z = self.fml(a); Z3_mk_not(self.c, z) }
                _ => { let x = self.bv(t); Z3_mk_eq(self.c, x, self.num(1, 1)) }
            }
        }
    }
    fn bv(&mut self, t: Tm) -> P {
        if let Some(p) = self.cache.get(&t) { return *p; }
        let (n, w) = node(t);
        let c = self.c;
        let r = unsafe {
            match n {
                Node::Const(v) => self.num(v, w),
                Node::Var(v) => self.var(v),
                Node::Tab(v, x) => {
                    let vi = var_n(v);
                    let off = x[0];
                    if w >= vi.width && w <= 64 && x.iter().enumerate().all(|(i, e)| *e == off.wrapping_add(i as u64) & (maskw(w) as u64)) {
                        let z = if w > vi.width { Z3_mk_zero_ext(c, w - vi.width, self.var(v)) } else { self.var(v) };
                        Z3_mk_bvadd(c, z, self.num(off as u128, w))
                    } else {
                        let mut groups: Vec<(u64, Mask)> = vec![];
                        for (i, e) in x.iter().enumerate() {
                            let m = match groups.iter_mut().find(|g| g.0 == *e) { Some(g) => &mut g.1, None => { groups.push((*e, [0; 4])); &mut groups.last_mut().unwrap().1 } };
                            m[i >> 6] |= 1 << (i & 63);
                        }
                        let mut r = self.num(groups.last().unwrap().0 as u128, w);
                        for (val, m) in groups.iter().rev().skip(1) { let f = self.set(v, m); r = Z3_mk_ite(c, f, self.num(*val as u128, w), r); }
                        r
                    }
                }
                Node::Bin(op, a, b) => {
                    let (x, y) = (self.bv(a), self.bv(b));
                    match op { BOp::Add => Z3_mk_bvadd(c, x, y), BOp::Sub => Z3_mk_bvsub(c, x, y), BOp::Mul => Z3_mk_bvmul(c, x, y), BOp::UDiv => Z3_mk_bvudiv(c, x, y),
                        BOp::SDiv => Z3_mk_bvsdiv(c, x, y), BOp::URem => Z3_mk_bvurem(c, x, y), BOp::SRem => Z3_mk_bvsrem(c, x, y), BOp::And => Z3_mk_bvand(c, x, y),
                        BOp::Or => Z3_mk_bvor(c, x, y), BOp::Xor => Z3_mk_bvxor(c, x, y), BOp::Shl => Z3_mk_bvshl(c, x, y), BOp::LShr => Z3_mk_bvlshr(c, x, y), BOp::AShr => Z3_mk_bvashr(c, x, y) }
                }
                Node::Cmp(..) => { let f = self.fml(t); Z3_mk_ite(c, f, self.num(1, 1), self.num(0, 1)) }
                Node::Ite(k, a, b) => { let f = self.fml(k); let (x, y) = (self.bv(a), self.bv(b)); Z3_mk_ite(c, f, x, y) }
                Node::ZExt(a) => { let iw = width(a); let x = self.bv(a); Z3_mk_zero_ext(c, w - iw, x) }
                Node::SExt(a) => { let iw = width(a); let x = self.bv(a); Z3_mk_sign_ext(c, w - iw, x) }
                Node::Extract(a, lo) => { let x = self.bv(a); Z3_mk_extract(c, lo + w - 1, lo, x) }
                Node::Concat(h, l) => { let (x, y) = (self.bv(h), self.bv(l)); Z3_mk_concat(c, x, y) }
            }
        };
        self.cache.insert(t, r);
        r
    }
    fn assert_t(&mut self, t: Tm) {
        let f = self.fml(t);
        unsafe {
            for v in fv(t).iter() { let vi = var_n(*v); if vi.n > 0 && (vi.width >= 32 || (vi.n as u64) < (1u64 << vi.width)) { let g = self.set(*v, &full_mask(vi.n)); Z3_solver_assert(self.c, self.s, g); } }
            Z3_solver_assert(self.c, self.s, f);
        }
    }
    /// Is pc AND extra satisfiable? Returns a model over all known variables.
    pub fn check(&mut self, pc: &[Tm], extra: Option<Tm>) -> Option<Vec<u64>> {
        let t0 = Instant::now();
        unsafe {
            let mut common = 0;
            while common < pc.len() && common < self.stack.len() && pc[common] == self.stack[common] { common += 1; }
            if self.stack.len() > common { Z3_solver_pop(self.c, self.s, (self.stack.len() - common) as c_uint); self.stack.truncate(common); }
            for t in &pc[common..] { Z3_solver_push(self.c, self.s); self.assert_t(*t); self.stack.push(*t); }
            if let Some(e) = extra { Z3_solver_push(self.c, self.s); self.assert_t(e); }
            let r = Z3_solver_check(self.c, self.s);
            let out = if r == 1 {
                let m = Z3_solver_get_model(self.c, self.s);
                Z3_model_inc_ref(self.c, m);
                let nv = ST.with(|s| s.borrow().vars.len());
                let mut vals = vec![0u64; nv];
                for (v, slot) in vals.iter_mut().enumerate() {
                    let mut o: P = std::ptr::null_mut();
                    let x = self.var(v as u32);
                    if Z3_model_eval(self.c, m, x, true, &mut o) { let mut u = 0u64; Z3_get_numeral_uint64(self.c, o, &mut u); *slot = u; }
                }
                Z3_model_dec_ref(self.c, m);
                self.st.sat += 1;
                Some(vals)
            } else if r == -1 { self.st.unsat += 1; None } else { eprintln!("llsx: z3 returned unknown"); std::process::exit(3) };
            if extra.is_some() { Z3_solver_pop(self.c, self.s, 1); }
            let us = t0.elapsed().as_micros() as u64;
            self.st.queries += 1; self.st.time_us += us; self.st.max_us = self.st.max_us.max(us);
            out
        }
    }
}
