//! Z3 behind its C API: one incremental QF_BV solver, constraint slicing and a query cache.
use crate::expr::*;
use std::collections::HashMap;
use std::os::raw::{c_char, c_int, c_uint, c_void};
use std::time::{Duration, Instant};

type P = *mut c_void;
#[link(name = "z3")]
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_set_param_value(c: P, k: *const c_char, v: *const c_char);
    fn Z3_mk_context(c: P) -> P;
    fn Z3_set_error_handler(c: P, h: extern "C" fn(P, c_int));
    fn Z3_mk_simple_solver(c: P) -> P;
    fn Z3_mk_solver_for_logic(c: P, l: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_push(c: P, s: P);
    fn Z3_solver_pop(c: P, s: P, n: c_uint);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, a: P, completion: bool, out: *mut P) -> bool;
    fn Z3_get_numeral_uint64(c: P, a: P, out: *mut u64) -> bool;
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_int_symbol(c: P, i: c_int) -> P;
    fn Z3_mk_bv_sort(c: P, n: c_uint) -> P;
    fn Z3_mk_const(c: P, s: P, t: P) -> P;
    fn Z3_mk_unsigned_int64(c: P, v: u64, t: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_bvnot(c: P, a: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_ext_rotate_left(c: P, a: P, b: P) -> P;
    fn Z3_mk_ext_rotate_right(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvule(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsle(c: P, a: P, b: P) -> P;
    fn Z3_mk_extract(c: P, h: c_uint, l: c_uint, a: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_zero_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_xor(c: P, a: P, b: P) -> P;
    fn Z3_mk_true(c: P) -> P;
    fn Z3_mk_false(c: P) -> P;
    fn Z3_get_full_version() -> *const c_char;
}

extern "C" fn on_err(_c: P, code: c_int) {
    eprintln!("z3 error code {code}");
    std::process::exit(70);
}

pub enum Res { Sat(Vec<(u32, u64)>), Unsat, Unknown }

pub struct Solver {
    cx: P, s: P,
    bv: HashMap<E, P>, // bit-vector form
    bl: HashMap<E, P>, // boolean form (width 1)
    vars: HashMap<u32, P>,
    cache: HashMap<Vec<E>, Option<Vec<(u32, u64)>>>,
    pub queries: u64, pub cache_hits: u64, pub sat: u64, pub unsat: u64, pub unknown: u64,
    pub time: Duration, pub max: Duration,
    pub slow_log: Duration,
}

impl Solver {
    pub fn new(timeout_ms: u32) -> Self { unsafe {
        let cfg = Z3_mk_config();
        Z3_set_param_value(cfg, b"model\0".as_ptr() as _, b"true\0".as_ptr() as _);
        let cx = Z3_mk_context(cfg);
        Z3_set_error_handler(cx, on_err);
        let _ = Z3_mk_simple_solver;
        let l = Z3_mk_string_symbol(cx, b"QF_BV\0".as_ptr() as _);
        let s = Z3_mk_solver_for_logic(cx, l);
        Z3_solver_inc_ref(cx, s);
        let p = Z3_mk_params(cx);
        Z3_params_inc_ref(cx, p);
        Z3_params_set_uint(cx, p, Z3_mk_string_symbol(cx, b"timeout\0".as_ptr() as _), timeout_ms);
        Z3_solver_set_params(cx, s, p);
        Solver { cx, s, bv: HashMap::new(), bl: HashMap::new(), vars: HashMap::new(), cache: HashMap::new(), queries: 0, cache_hits: 0, sat: 0, unsat: 0, unknown: 0,
            time: Duration::ZERO, max: Duration::ZERO, slow_log: Duration::from_secs(2) }
    } }
    pub fn version() -> String { unsafe { std::ffi::CStr::from_ptr(Z3_get_full_version()).to_string_lossy().into_owned() } }

    fn tobool(&mut self, a: &Arena, e: E) -> P { unsafe {
        if let Some(&p) = self.bl.get(&e) { return p; }
        let c = self.cx;
        let p = match a.n(e) {
            N::Const(v) => if v == 1 { Z3_mk_true(c) } else { Z3_mk_false(c) },
            N::Not(x) => { let x = self.tobool(a, x); Z3_mk_not(c, x) }
            N::Bin(Op::And, x, y) => { let v = [self.tobool(a, x), self.tobool(a, y)]; Z3_mk_and(c, 2, v.as_ptr()) }
            N::Bin(Op::Or, x, y) => { let v = [self.tobool(a, x), self.tobool(a, y)]; Z3_mk_or(c, 2, v.as_ptr()) }
            N::Bin(Op::Xor, x, y) => { let (x, y) = (self.tobool(a, x), self.tobool(a, y)); Z3_mk_xor(c, x, y) }
            N::Bin(Op::Eq, x, y) => { if a.w(x) == 1 { let (x, y) = (self.tobool(a, x), self.tobool(a, y)); Z3_mk_eq(c, x, y) } else { let (x, y) = (self.tobv(a, x), self.tobv(a, y)); Z3_mk_eq(c, x, y) } }
            N::Bin(Op::Ult, x, y) => { let (x, y) = (self.tobv(a, x), self.tobv(a, y)); Z3_mk_bvult(c, x, y) }
            N::Bin(Op::Ule, x, y) => { let (x, y) = (self.tobv(a, x), self.tobv(a, y)); Z3_mk_bvule(c, x, y) }
            N::Bin(Op::Slt, x, y) => { let (x, y) = (self.tobv(a, x), self.tobv(a, y)); Z3_mk_bvslt(c, x, y) }
            N::Bin(Op::Sle, x, y) => { let (x, y) = (self.tobv(a, x), self.tobv(a, y)); Z3_mk_bvsle(c, x, y) }
            N::Ite(i, x, y) => { let (i, x, y) = (self.tobool(a, i), self.tobool(a, x), self.tobool(a, y)); Z3_mk_ite(c, i, x, y) }
            N::Table(i, t) => {
                let v: Vec<u64> = a.tabs[t as usize].to_vec();
                let i = self.tobv(a, i); let n = v.len().trailing_zeros();
                self.tabtree(i, n, &v, &|s, x| if x == 1 { Z3_mk_true(s.cx) } else { Z3_mk_false(s.cx) })
            }
            _ => { let x = self.tobv(a, e); let one = Z3_mk_unsigned_int64(c, 1, Z3_mk_bv_sort(c, 1)); Z3_mk_eq(c, x, one) }
        };
        self.bl.insert(e, p);
        p
    } }
    unsafe fn tabtree(&self, i: P, bit: u32, v: &[u64], leaf: &dyn Fn(&Self, u64) -> P) -> P {
        if v.iter().all(|x| *x == v[0]) { return leaf(self, v[0]); }
        let c = self.cx;
        let b = Z3_mk_extract(c, bit - 1, bit - 1, i);
        let one = Z3_mk_unsigned_int64(c, 1, Z3_mk_bv_sort(c, 1));
        let h = v.len() / 2;
        let (hi, lo) = (self.tabtree(i, bit - 1, &v[h..], leaf), self.tabtree(i, bit - 1, &v[..h], leaf));
        Z3_mk_ite(c, Z3_mk_eq(c, b, one), hi, lo)
    }
    fn tobv(&mut self, a: &Arena, e: E) -> P { unsafe {
        if let Some(&p) = self.bv.get(&e) { return p; }
        let c = self.cx;
        let w = a.w(e);
        let b2 = |c, p| { let s = Z3_mk_bv_sort(c, 1); Z3_mk_ite(c, p, Z3_mk_unsigned_int64(c, 1, s), Z3_mk_unsigned_int64(c, 0, s)) };
        let p = match a.n(e) {
            N::Const(v) => Z3_mk_unsigned_int64(c, v, Z3_mk_bv_sort(c, w as u32)),
            N::Var(i) => { let p = Z3_mk_const(c, Z3_mk_int_symbol(c, i as c_int), Z3_mk_bv_sort(c, w as u32)); self.vars.insert(i, p); p }
            N::Extract(h, l, x) => { let x = self.tobv(a, x); Z3_mk_extract(c, h as u32, l as u32, x) }
            N::Concat(x, y) => { let (x, y) = (self.tobv(a, x), self.tobv(a, y)); Z3_mk_concat(c, x, y) }
            N::Zext(x) => { let wx = a.w(x); let x = self.tobv(a, x); Z3_mk_zero_ext(c, (w - wx) as u32, x) }
            N::Sext(x) => { let wx = a.w(x); let x = self.tobv(a, x); Z3_mk_sign_ext(c, (w - wx) as u32, x) }
            N::Ite(i, x, y) => { let (i, x, y) = (self.tobool(a, i), self.tobv(a, x), self.tobv(a, y)); Z3_mk_ite(c, i, x, y) }
            N::Not(x) if w > 1 => { let x = self.tobv(a, x); Z3_mk_bvnot(c, x) }
            N::Not(_) | N::Ite(..) | N::Table(..) | N::Bin(Op::And | Op::Or | Op::Xor | Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle, ..) if w == 1 => { let p = self.tobool(a, e); b2(c, p) }
            N::Table(i, t) => {
                let v: Vec<u64> = a.tabs[t as usize].to_vec();
                let i = self.tobv(a, i); let n = v.len().trailing_zeros();
                self.tabtree(i, n, &v, &|s, x| Z3_mk_unsigned_int64(s.cx, x, Z3_mk_bv_sort(s.cx, w as u32)))
            }
            N::Not(_) => unreachable!(),
            N::Bin(op, x, y) => {
                let (x, y) = (self.tobv(a, x), self.tobv(a, y));
                match op {
                    Op::Add => Z3_mk_bvadd(c, x, y), Op::Sub => Z3_mk_bvsub(c, x, y), Op::Mul => Z3_mk_bvmul(c, x, y),
                    Op::UDiv => Z3_mk_bvudiv(c, x, y), Op::SDiv => Z3_mk_bvsdiv(c, x, y), Op::URem => Z3_mk_bvurem(c, x, y), Op::SRem => Z3_mk_bvsrem(c, x, y),
                    Op::And => Z3_mk_bvand(c, x, y), Op::Or => Z3_mk_bvor(c, x, y), Op::Xor => Z3_mk_bvxor(c, x, y),
                    Op::Shl => Z3_mk_bvshl(c, x, y), Op::LShr => Z3_mk_bvlshr(c, x, y), Op::AShr => Z3_mk_bvashr(c, x, y),
                    Op::Rotl => Z3_mk_ext_rotate_left(c, x, y), Op::Rotr => Z3_mk_ext_rotate_right(c, x, y),
                    _ => unreachable!(),
                }
            }
        };
        self.bv.insert(e, p);
        p
    } }

    /// Is `pc AND cond` satisfiable?  Only the constraints connected to `cond` are sent.
    /// On Sat the returned assignment covers the variables of that slice.
    pub fn check(&mut self, a: &Arena, pc: &[E], cond: E) -> Res {
        if cond == a.fal { return Res::Unsat; }
        let mut key: Vec<E> = vec![];
        let mut vs: Vec<u32> = a.varset[cond as usize].to_vec();
        let mut used = vec![false; pc.len()];
        loop {
            let mut ch = false;
            for (i, &c) in pc.iter().enumerate() {
                if used[i] { continue; }
                let cv = &a.varset[c as usize];
                if cv.iter().any(|v| vs.binary_search(v).is_ok()) {
                    used[i] = true; ch = true; key.push(c);
                    for v in cv.iter() { if let Err(p) = vs.binary_search(v) { vs.insert(p, *v); } }
                }
            }
            if !ch { break; }
        }
        key.sort(); key.dedup();
        key.push(cond);
        if let Some(r) = self.cache.get(&key) {
            self.cache_hits += 1;
            return match r { Some(m) => Res::Sat(m.clone()), None => Res::Unsat };
        }
        let t = Instant::now();
        self.queries += 1;
        let r = unsafe {
            let ps: Vec<P> = key.iter().map(|&e| self.tobool(a, e)).collect();
            Z3_solver_push(self.cx, self.s);
            for p in ps { Z3_solver_assert(self.cx, self.s, p); }
            let r = match Z3_solver_check(self.cx, self.s) {
                1 => {
                    let m = Z3_solver_get_model(self.cx, self.s);
                    Z3_model_inc_ref(self.cx, m);
                    let mut out = vec![];
                    for v in vs {
                        let p = match self.vars.get(&v) { Some(p) => *p, None => continue };
                        let mut o: P = std::ptr::null_mut();
                        let mut n = 0u64;
                        if Z3_model_eval(self.cx, m, p, true, &mut o) && Z3_get_numeral_uint64(self.cx, o, &mut n) { out.push((v, n)); }
                        else { eprintln!("z3: cannot read model"); std::process::exit(70); }
                    }
                    Z3_model_dec_ref(self.cx, m);
                    self.sat += 1;
                    Res::Sat(out)
                }
                -1 => { self.unsat += 1; Res::Unsat }
                _ => { self.unknown += 1; Res::Unknown }
            };
            Z3_solver_pop(self.cx, self.s, 1);
            r
        };
        let d = t.elapsed();
        self.time += d;
        if d > self.max { self.max = d; }
        if d > self.slow_log { eprintln!("slow query {:?}: {}", d, a.show(cond, 12)); }
        match &r { Res::Sat(m) => { self.cache.insert(key, Some(m.clone())); } Res::Unsat => { self.cache.insert(key, None); } Res::Unknown => {} }
        r
    }
}
