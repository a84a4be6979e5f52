//! Z3 (C API) back end: satisfiability of sets of 1-bit expressions.

use crate::expr::{self, node, vars, Model, Op, Vars, E};
use std::collections::HashMap;
use std::ffi::CString;
use std::os::raw::{c_char, c_int, c_uint, c_void};
use std::time::Instant;

type P = *mut c_void;

extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_mk_context(c: P) -> P;
    fn Z3_del_context(c: P);
    fn Z3_set_error_handler(c: P, h: Option<extern "C" fn(P, c_int)>);
    fn Z3_mk_int_symbol(c: P, i: c_int) -> P;
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_bv_sort(c: P, sz: c_uint) -> P;
    fn Z3_mk_const(c: P, s: P, ty: P) -> P;
    fn Z3_mk_numeral(c: P, n: *const c_char, ty: P) -> P;
    fn Z3_mk_unsigned_int64(c: P, v: u64, ty: P) -> P;
    fn Z3_mk_eq(c: P, l: P, r: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_true(c: P) -> P;
    fn Z3_mk_false(c: P) -> P;
    fn Z3_mk_ite(c: P, t1: P, t2: P, t3: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvule(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsle(c: P, a: P, b: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_zero_ext(c: P, i: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, i: c_uint, a: P) -> P;
    fn Z3_mk_solver_for_logic(c: P, logic: P) -> P;
    fn Z3_mk_simple_solver(c: P) -> P;
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_reset(c: P, s: P);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, t: P, comp: bool, v: *mut P) -> bool;
    fn Z3_get_numeral_string(c: P, a: P) -> *const c_char;
    fn Z3_get_numeral_uint64(c: P, a: P, u: *mut u64) -> bool;
    fn Z3_solver_to_string(c: P, s: P) -> *const c_char;
}

extern "C" fn on_error(_c: P, e: c_int) {
    eprintln!("z3 error code {}", e);
    std::process::exit(3);
}

#[derive(Default, Clone)]
pub struct Stats {
    pub queries: u64,
    pub cached: u64,
    pub sat: u64,
    pub unsat: u64,
    pub time_us: u64,
    pub max_us: u64,
}

pub struct Solver {
    ctx: P,
    slv: P,
    /// bit-vector terms by expression (1-bit expressions as Bool)
    memo: HashMap<E, P>,
    vmap: HashMap<E, P>,
    cache: HashMap<Vec<E>, Option<Vec<(u16, u128)>>>,
    pub stats: Stats,
    pub timeout_ms: u32,
    pub dump_unsat: Option<Box<dyn FnMut(&str)>>,
}

impl Solver {
    pub fn new(timeout_ms: u32) -> Solver {
        let mut s = Solver {
            ctx: std::ptr::null_mut(), slv: std::ptr::null_mut(),
            memo: HashMap::new(), vmap: HashMap::new(),
            cache: HashMap::new(), stats: Stats::default(),
            timeout_ms, dump_unsat: None,
        };
        s.open();
        s
    }

    fn open(&mut self) {
        unsafe {
            let cfg = Z3_mk_config();
            self.ctx = Z3_mk_context(cfg);
            Z3_set_error_handler(self.ctx, Some(on_error));
            let logic = CString::new("QF_BV").unwrap();
            let sy = Z3_mk_string_symbol(self.ctx, logic.as_ptr());
            self.slv = if std::env::var("SX_SIMPLE").is_ok() {
                Z3_mk_simple_solver(self.ctx)
            } else {
                Z3_mk_solver_for_logic(self.ctx, sy)
            };
            Z3_solver_inc_ref(self.ctx, self.slv);
            let p = Z3_mk_params(self.ctx);
            Z3_params_inc_ref(self.ctx, p);
            let k = CString::new("timeout").unwrap();
            let k = Z3_mk_string_symbol(self.ctx, k.as_ptr());
            Z3_params_set_uint(self.ctx, p, k, self.timeout_ms);
            Z3_solver_set_params(self.ctx, self.slv, p);
        }
    }

    /// Bound the memory of the solver context.
    fn recycle(&mut self) {
        unsafe { Z3_del_context(self.ctx); }
        self.memo.clear();
        self.vmap.clear();
        self.open();
    }

    fn as_bv(&mut self, e: E) -> P {
        // bit-vector view of a 1-bit term
        let t = self.term(e);
        if expr::width(e) != 1 { return t; }
        unsafe {
            let s = Z3_mk_bv_sort(self.ctx, 1);
            let one = Z3_mk_unsigned_int64(self.ctx, 1, s);
            let zero = Z3_mk_unsigned_int64(self.ctx, 0, s);
            Z3_mk_ite(self.ctx, t, one, zero)
        }
    }

    fn term(&mut self, e: E) -> P {
        if let Some(t) = self.memo.get(&e) { return *t; }
        let n = node(e);
        let c = self.ctx;
        let t = unsafe { match n.op {
            Op::Const => {
                if n.w == 1 {
                    if n.k != 0 { Z3_mk_true(c) } else { Z3_mk_false(c) }
                } else {
                    let s = Z3_mk_bv_sort(c, n.w as c_uint);
                    if n.w <= 64 {
                        Z3_mk_unsigned_int64(c, n.k as u64, s)
                    } else {
                        let k = CString::new(n.k.to_string()).unwrap();
                        Z3_mk_numeral(c, k.as_ptr(), s)
                    }
                }
            }
            Op::Var => {
                let s = Z3_mk_bv_sort(c, n.w as c_uint);
                let y = Z3_mk_int_symbol(c, n.k as c_int);
                let v = Z3_mk_const(c, y, s);
                self.vmap.insert(e, v);
                if n.w == 1 {
                    let one = Z3_mk_unsigned_int64(c, 1, s);
                    Z3_mk_eq(c, v, one)
                } else { v }
            }
            Op::Ite => {
                let (a, b, d) = (self.term(n.a), self.term(n.b),
                                 self.term(n.c));
                Z3_mk_ite(c, a, b, d)
            }
            Op::Extract => {
                let a = self.as_bv(n.a);
                let x = Z3_mk_extract(c, n.k as c_uint + n.w as c_uint - 1,
                                      n.k as c_uint, a);
                if n.w == 1 {
                    let s = Z3_mk_bv_sort(c, 1);
                    Z3_mk_eq(c, x, Z3_mk_unsigned_int64(c, 1, s))
                } else { x }
            }
            Op::ZExt => {
                let iw = expr::width(n.a);
                if iw == 1 {
                    let s = Z3_mk_bv_sort(c, n.w as c_uint);
                    let t = self.term(n.a);
                    Z3_mk_ite(c, t, Z3_mk_unsigned_int64(c, 1, s),
                              Z3_mk_unsigned_int64(c, 0, s))
                } else {
                    let a = self.as_bv(n.a);
                    Z3_mk_zero_ext(c, (n.w - iw) as c_uint, a)
                }
            }
            Op::SExt => {
                let iw = expr::width(n.a);
                let a = self.as_bv(n.a);
                Z3_mk_sign_ext(c, (n.w - iw) as c_uint, a)
            }
            Op::Concat => {
                let (a, b) = (self.as_bv(n.a), self.as_bv(n.b));
                Z3_mk_concat(c, a, b)
            }
            Op::Eq => {
                let (a, b) = (self.term(n.a), self.term(n.b));
                Z3_mk_eq(c, a, b)
            }
            Op::Ult | Op::Ule | Op::Slt | Op::Sle => {
                let (a, b) = (self.as_bv(n.a), self.as_bv(n.b));
                match n.op {
                    Op::Ult => Z3_mk_bvult(c, a, b),
                    Op::Ule => Z3_mk_bvule(c, a, b),
                    Op::Slt => Z3_mk_bvslt(c, a, b),
                    _ => Z3_mk_bvsle(c, a, b),
                }
            }
            op if n.w == 1 && matches!(op, Op::And | Op::Or | Op::Xor) => {
                let (a, b) = (self.term(n.a), self.term(n.b));
                match op {
                    Op::And => Z3_mk_and(c, 2, [a, b].as_ptr()),
                    Op::Or => Z3_mk_or(c, 2, [a, b].as_ptr()),
                    _ => Z3_mk_not(c, Z3_mk_eq(c, a, b)),
                }
            }
            op => {
                let (a, b) = (self.as_bv(n.a), self.as_bv(n.b));
                let r = match op {
                    Op::Add => Z3_mk_bvadd(c, a, b),
                    Op::Sub => Z3_mk_bvsub(c, a, b),
                    Op::Mul => Z3_mk_bvmul(c, a, b),
                    Op::UDiv => Z3_mk_bvudiv(c, a, b),
                    Op::SDiv => Z3_mk_bvsdiv(c, a, b),
                    Op::URem => Z3_mk_bvurem(c, a, b),
                    Op::SRem => Z3_mk_bvsrem(c, a, b),
                    Op::And => Z3_mk_bvand(c, a, b),
                    Op::Or => Z3_mk_bvor(c, a, b),
                    Op::Xor => Z3_mk_bvxor(c, a, b),
                    Op::Shl => Z3_mk_bvshl(c, a, b),
                    Op::LShr => Z3_mk_bvlshr(c, a, b),
                    Op::AShr => Z3_mk_bvashr(c, a, b),
                    _ => unreachable!(),
                };
                if n.w == 1 {
                    let s = Z3_mk_bv_sort(c, 1);
                    Z3_mk_eq(c, r, Z3_mk_unsigned_int64(c, 1, s))
                } else { r }
            }
        }};
        self.memo.insert(e, t);
        t
    }

    /// Constraints of `pc` connected through variables with `e`.
    fn slice(pc: &[E], e: E) -> (Vec<E>, Vars) {
        let mut vs = vars(e);
        let mut used = vec![false; pc.len()];
        let mut out = vec![e];
        loop {
            let mut ch = false;
            for (i, c) in pc.iter().enumerate() {
                if used[i] { continue; }
                let cv = vars(*c);
                if (0..vs.len()).any(|j| cv[j] & vs[j] != 0) {
                    used[i] = true;
                    ch = true;
                    out.push(*c);
                    for j in 0..vs.len() { vs[j] |= cv[j]; }
                }
            }
            if !ch { break; }
        }
        out.sort_unstable();
        out.dedup();
        (out, vs)
    }

    /// Is pc /\ e satisfiable? `base` must satisfy pc; the result extends it.
    pub fn check(&mut self, pc: &[E], e: E, base: &Model)
        -> Result<Option<Model>, String>
    {
        match expr::as_const(e) {
            Some(0) => return Ok(None),
            Some(_) => return Ok(Some(base.clone())),
            None => {}
        }
        let (key, _) = Self::slice(pc, e);
        let merge = |part: &Vec<(u16, u128)>| {
            let mut m = base.clone();
            for (i, v) in part {
                if m.len() <= *i as usize { m.resize(*i as usize + 1, 0); }
                m[*i as usize] = *v;
            }
            m
        };
        self.stats.queries += 1;
        if let Some(r) = self.cache.get(&key) {
            self.stats.cached += 1;
            return Ok(r.as_ref().map(merge));
        }
        if self.memo.len() > 400_000 { self.recycle(); }
        let t0 = Instant::now();
        let ts: Vec<P> = key.iter().map(|e| self.term(*e)).collect();
        let r = unsafe {
            Z3_solver_reset(self.ctx, self.slv);
            for t in &ts { Z3_solver_assert(self.ctx, self.slv, *t); }
            Z3_solver_check(self.ctx, self.slv)
        };
        let res = match r {
            1 => {
                self.stats.sat += 1;
                let mut vlist = Vec::new();
                collect(&key, &mut vlist);
                let mut part = Vec::new();
                unsafe {
                    let m = Z3_solver_get_model(self.ctx, self.slv);
                    Z3_model_inc_ref(self.ctx, m);
                    for ve in vlist {
                        let n = node(ve);
                        let t = self.vmap[&ve];
                        let mut out: P = std::ptr::null_mut();
                        if !Z3_model_eval(self.ctx, m, t, true, &mut out) {
                            return Err("model eval".into());
                        }
                        let mut u = 0u64;
                        let v = if Z3_get_numeral_uint64(self.ctx, out,
                                                         &mut u) {
                            u as u128
                        } else {
                            let s = Z3_get_numeral_string(self.ctx, out);
                            let s = std::ffi::CStr::from_ptr(s)
                                .to_string_lossy().into_owned();
                            s.parse::<u128>().map_err(|e| e.to_string())?
                        };
                        part.push(((n.k & 0xffff) as u16, v));
                    }
                    Z3_model_dec_ref(self.ctx, m);
                }
                // guard the encoding: the model must satisfy the query
                let full = merge(&part);
                for c in &key {
                    if expr::eval(*c, &full) != 1 {
                        return Err("model does not evaluate".into());
                    }
                }
                Some(part)
            }
            -1 => {
                self.stats.unsat += 1;
                if let Some(f) = &mut self.dump_unsat {
                    let s = unsafe {
                        // as asserted, before solving rewrote it
                        Z3_solver_reset(self.ctx, self.slv);
                        for t in &ts {
                            Z3_solver_assert(self.ctx, self.slv, *t);
                        }
                        std::ffi::CStr::from_ptr(
                            Z3_solver_to_string(self.ctx, self.slv))
                            .to_string_lossy().into_owned()
                    };
                    f(&s);
                }
                None
            }
            _ => return Err("solver unknown (timeout)".into()),
        };
        let dt = t0.elapsed().as_micros() as u64;
        self.stats.time_us += dt;
        if dt > self.stats.max_us { self.stats.max_us = dt; }
        let ret = res.as_ref().map(merge);
        self.cache.insert(key, res);
        Ok(ret)
    }
}

fn collect(key: &[E], out: &mut Vec<E>) {
    let mut seen = std::collections::HashSet::new();
    let mut st: Vec<E> = key.to_vec();
    while let Some(e) = st.pop() {
        if !seen.insert(e) { continue; }
        let n = node(e);
        match n.op {
            Op::Const => {}
            Op::Var => out.push(e),
            Op::Extract | Op::ZExt | Op::SExt => st.push(n.a),
            Op::Ite => { st.push(n.a); st.push(n.b); st.push(n.c); }
            _ => { st.push(n.a); st.push(n.b); }
        }
    }
}
