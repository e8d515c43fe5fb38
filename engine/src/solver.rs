//! Z3 (C API) as the decision procedure.  One context per worker thread.

use crate::expr::*;
use crate::ir::BinOp;
use std::ffi::CString;
use std::os::raw::{c_char, c_int, c_uint, c_void};
use std::time::Instant;

type P = *mut c_void;
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_set_param_value(c: P, k: *const c_char, v: *const c_char);
    fn Z3_mk_context(c: P) -> P;
    fn Z3_del_context(c: P);
    fn Z3_del_config(c: P);
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_bv_sort(c: P, w: c_uint) -> P;
    fn Z3_mk_const(c: P, s: P, t: P) -> P;
    fn Z3_mk_unsigned_int64(c: P, v: u64, s: P) -> P;
    fn Z3_mk_true(c: P) -> P;
    fn Z3_mk_false(c: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_xor(c: P, a: P, b: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvule(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsle(c: P, a: P, b: P) -> P;
    fn Z3_mk_zero_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_simple_solver(c: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_push(c: P, s: P);
    fn Z3_solver_pop(c: P, s: P, n: c_uint);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, t: P, completion: bool, out: *mut P) -> bool;
    fn Z3_get_numeral_uint64(c: P, a: P, out: *mut u64) -> bool;
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_solver_to_string(c: P, s: P) -> *const c_char;
    fn Z3_get_error_code(c: P) -> c_int;
}

#[derive(Clone, Debug, PartialEq)]
pub enum Verdict {
    Sat(Vec<u8>),
    Unsat,
    Unknown,
}

#[derive(Default, Clone, Debug)]
pub struct Stats {
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub cache_hits: u64,
    pub validations: u64,
    pub validated_rewrites: u64,
    pub time_us: u64,
    pub assert_queries: u64,
    pub max_us: u64,
}

pub struct Z3 {
    cfg: P,
    ctx: P,
    solver: P,
    asts: Vec<P>,
    cache: FxMap<Vec<Id>, Verdict>,
    pub stats: Stats,
    pub dump: Option<(std::path::PathBuf, u64, u64)>, // dir, every n-th query, counter
    since_reset: u64,
}

unsafe impl Send for Z3 {}

fn cs(s: &str) -> CString {
    CString::new(s).unwrap()
}

impl Z3 {
    pub fn new() -> Self {
        let mut z = Z3 {
            cfg: std::ptr::null_mut(),
            ctx: std::ptr::null_mut(),
            solver: std::ptr::null_mut(),
            asts: vec![],
            cache: Default::default(),
            stats: Default::default(),
            dump: None,
            since_reset: 0,
        };
        z.open();
        z
    }
    fn open(&mut self) {
        unsafe {
            self.cfg = Z3_mk_config();
            Z3_set_param_value(self.cfg, cs("model").as_ptr(), cs("true").as_ptr());
            self.ctx = Z3_mk_context(self.cfg);
            self.solver = Z3_mk_simple_solver(self.ctx);
            Z3_solver_inc_ref(self.ctx, self.solver);
            let p = Z3_mk_params(self.ctx);
            Z3_params_inc_ref(self.ctx, p);
            let k = Z3_mk_string_symbol(self.ctx, cs("timeout").as_ptr());
            Z3_params_set_uint(self.ctx, p, k, 60_000);
            Z3_solver_set_params(self.ctx, self.solver, p);
        }
        self.asts.clear();
        self.since_reset = 0;
    }
    fn reset(&mut self) {
        unsafe {
            Z3_del_context(self.ctx);
            Z3_del_config(self.cfg);
        }
        self.open();
    }

    fn inset_ast(&self, var: u32, s: &Set) -> P {
        let c = self.ctx;
        unsafe {
            let x = self.var_ast(var);
            let so = Z3_mk_bv_sort(c, 8);
            let mut parts: Vec<P> = vec![];
            let mut i = 0usize;
            while i < 256 {
                if set_has(s, i as u8) {
                    let lo = i;
                    while i < 256 && set_has(s, i as u8) {
                        i += 1;
                    }
                    let hi = i - 1;
                    let l = Z3_mk_unsigned_int64(c, lo as u64, so);
                    let h = Z3_mk_unsigned_int64(c, hi as u64, so);
                    if lo == hi {
                        parts.push(Z3_mk_eq(c, x, l));
                    } else {
                        let a = [Z3_mk_bvule(c, l, x), Z3_mk_bvule(c, x, h)];
                        parts.push(Z3_mk_and(c, 2, a.as_ptr()));
                    }
                } else {
                    i += 1;
                }
            }
            if parts.len() == 1 {
                parts[0]
            } else {
                Z3_mk_or(c, parts.len() as u32, parts.as_ptr())
            }
        }
    }
    fn var_ast(&self, v: u32) -> P {
        unsafe {
            let s = Z3_mk_string_symbol(self.ctx, cs(&format!("b{}", v)).as_ptr());
            Z3_mk_const(self.ctx, s, Z3_mk_bv_sort(self.ctx, 8))
        }
    }

    pub fn tr(&mut self, ar: &Arena, e: Id) -> P {
        // iterative post-order to keep the native stack small
        if self.asts.len() < ar.nodes.len() {
            self.asts.resize(ar.nodes.len(), std::ptr::null_mut());
        }
        let mut st = vec![e];
        while let Some(x) = st.last().copied() {
            if !self.asts[x as usize].is_null() {
                st.pop();
                continue;
            }
            let n = ar.nodes[x as usize];
            let mut ready = true;
            let kids: &[Id] = match n.op {
                Op::Const | Op::Var | Op::InSet => &[],
                Op::ZExt | Op::SExt | Op::Extract => &[n.a],
                Op::Ite => &[n.a, n.b, n.c],
                _ => &[n.a, n.b],
            };
            for k in kids {
                if self.asts[*k as usize].is_null() {
                    st.push(*k);
                    ready = false;
                }
            }
            if ready {
                let a = self.tr_node(ar, &n);
                self.asts[x as usize] = a;
                st.pop();
            }
        }
        self.asts[e as usize]
    }

    /// operands must already be translated
    fn tr_node(&self, ar: &Arena, n: &Node) -> P {
        let c = self.ctx;
        let k = |i: Id| self.asts[i as usize];
        unsafe {
            match n.op {
                Op::Const => {
                    if n.w == 1 {
                        if n.val == 1 {
                            Z3_mk_true(c)
                        } else {
                            Z3_mk_false(c)
                        }
                    } else {
                        Z3_mk_unsigned_int64(c, n.val, Z3_mk_bv_sort(c, n.w as u32))
                    }
                }
                Op::Var => self.var_ast(n.a),
                Op::InSet => self.inset_ast(n.a, &ar.sets[n.val as usize]),
                Op::Bin(o) if n.w == 1 => {
                    let (a, b) = (k(n.a), k(n.b));
                    match o {
                        BinOp::And | BinOp::Mul => Z3_mk_and(c, 2, [a, b].as_ptr()),
                        BinOp::Or => Z3_mk_or(c, 2, [a, b].as_ptr()),
                        BinOp::Xor | BinOp::Add | BinOp::Sub => Z3_mk_xor(c, a, b),
                        _ => panic!("1-bit {:?}", o),
                    }
                }
                Op::Bin(o) => {
                    let (a, b) = (k(n.a), k(n.b));
                    match o {
                        BinOp::Add => Z3_mk_bvadd(c, a, b),
                        BinOp::Sub => Z3_mk_bvsub(c, a, b),
                        BinOp::Mul => Z3_mk_bvmul(c, a, b),
                        BinOp::UDiv => Z3_mk_bvudiv(c, a, b),
                        BinOp::SDiv => Z3_mk_bvsdiv(c, a, b),
                        BinOp::URem => Z3_mk_bvurem(c, a, b),
                        BinOp::SRem => Z3_mk_bvsrem(c, a, b),
                        BinOp::Shl => Z3_mk_bvshl(c, a, b),
                        BinOp::LShr => Z3_mk_bvlshr(c, a, b),
                        BinOp::AShr => Z3_mk_bvashr(c, a, b),
                        BinOp::And => Z3_mk_bvand(c, a, b),
                        BinOp::Or => Z3_mk_bvor(c, a, b),
                        BinOp::Xor => Z3_mk_bvxor(c, a, b),
                    }
                }
                Op::Eq => Z3_mk_eq(c, k(n.a), k(n.b)),
                Op::Ult => Z3_mk_bvult(c, k(n.a), k(n.b)),
                Op::Ule => Z3_mk_bvule(c, k(n.a), k(n.b)),
                Op::Slt => Z3_mk_bvslt(c, k(n.a), k(n.b)),
                Op::Sle => Z3_mk_bvsle(c, k(n.a), k(n.b)),
                Op::ZExt => {
                    let iw = ar.w(n.a);
                    if iw == 1 {
                        let so = Z3_mk_bv_sort(c, n.w as u32);
                        Z3_mk_ite(c, k(n.a), Z3_mk_unsigned_int64(c, 1, so), Z3_mk_unsigned_int64(c, 0, so))
                    } else {
                        Z3_mk_zero_ext(c, (n.w - iw) as u32, k(n.a))
                    }
                }
                Op::SExt => {
                    let iw = ar.w(n.a);
                    Z3_mk_sign_ext(c, (n.w - iw) as u32, k(n.a))
                }
                Op::Extract => {
                    let x = Z3_mk_extract(c, n.val as u32 + n.w as u32 - 1, n.val as u32, k(n.a));
                    if n.w == 1 {
                        Z3_mk_eq(c, x, Z3_mk_unsigned_int64(c, 1, Z3_mk_bv_sort(c, 1)))
                    } else {
                        x
                    }
                }
                Op::Concat => {
                    let bv = |i: Id| {
                        if ar.w(i) == 1 {
                            let so = Z3_mk_bv_sort(c, 1);
                            Z3_mk_ite(c, k(i), Z3_mk_unsigned_int64(c, 1, so), Z3_mk_unsigned_int64(c, 0, so))
                        } else {
                            k(i)
                        }
                    };
                    Z3_mk_concat(c, bv(n.a), bv(n.b))
                }
                Op::Ite => Z3_mk_ite(c, k(n.a), k(n.b), k(n.c)),
            }
        }
    }

    /// satisfiability of the conjunction of `cs` (sorted, deduplicated by the caller).
    pub fn check(&mut self, ar: &Arena, cs_: &[Id], nvars: u32, is_assert: bool) -> Verdict {
        if let Some(v) = self.cache.get(cs_) {
            self.stats.cache_hits += 1;
            return v.clone();
        }
        self.since_reset += 1;
        if self.since_reset > 60_000 {
            self.reset();
        }
        let t = Instant::now();
        let asts: Vec<P> = cs_.iter().map(|e| self.tr(ar, *e)).collect();
        let r;
        unsafe {
            Z3_solver_push(self.ctx, self.solver);
            for a in &asts {
                Z3_solver_assert(self.ctx, self.solver, *a);
            }
            let mut text = None;
            if let Some((d, every, n)) = &mut self.dump {
                *n += 1;
                if *n % *every == 0 {
                    let s = std::ffi::CStr::from_ptr(Z3_solver_to_string(self.ctx, self.solver)).to_string_lossy().into_owned();
                    text = Some((d.clone(), *n, s));
                }
            }
            let k = Z3_solver_check(self.ctx, self.solver);
            if let Some((d, n, t)) = text {
                let v = ["unsat", "unknown", "sat"][(k + 1).clamp(0, 2) as usize];
                let _ = std::fs::write(d.join(format!("q{}-{:?}.{}.smt2", n, std::thread::current().id(), v)), t + "(check-sat)\n");
            }
            let err = Z3_get_error_code(self.ctx);
            r = if err != 0 {
                Verdict::Unknown
            } else if k == 1 {
                let m = Z3_solver_get_model(self.ctx, self.solver);
                Z3_model_inc_ref(self.ctx, m);
                let mut out = vec![];
                for v in 0..nvars {
                    let mut o: P = std::ptr::null_mut();
                    let x = self.var_ast(v);
                    Z3_model_eval(self.ctx, m, x, true, &mut o);
                    let mut u = 0u64;
                    Z3_get_numeral_uint64(self.ctx, o, &mut u);
                    out.push(u as u8);
                }
                Z3_model_dec_ref(self.ctx, m);
                Verdict::Sat(out)
            } else if k == -1 {
                Verdict::Unsat
            } else {
                Verdict::Unknown
            };
            Z3_solver_pop(self.ctx, self.solver, 1);
        }
        let us = t.elapsed().as_micros() as u64;
        self.stats.time_us += us;
        self.stats.max_us = self.stats.max_us.max(us);
        self.stats.queries += 1;
        if is_assert {
            self.stats.assert_queries += 1;
        }
        match &r {
            Verdict::Sat(_) => self.stats.sat += 1,
            Verdict::Unsat => self.stats.unsat += 1,
            Verdict::Unknown => self.stats.unknown += 1,
        }
        if self.cache.len() > 400_000 {
            self.cache.clear();
        }
        self.cache.insert(cs_.to_vec(), r.clone());
        r
    }

    /// Z3 confirms that each single-byte boolean equals its canonical set form.
    pub fn validate(&mut self, ar: &mut Arena) -> Result<(), String> {
        let pend = std::mem::take(&mut ar.pending);
        for ch in pend.chunks(64) {
            let t = Instant::now();
            let mut diffs: Vec<P> = vec![];
            for (n, v) in ch {
                let kids: &[Id] = match n.op {
                    Op::ZExt | Op::SExt | Op::Extract => &[n.a],
                    Op::Ite => &[n.a, n.b, n.c],
                    _ => &[n.a, n.b],
                };
                for k in kids {
                    self.tr(ar, *k);
                }
                let raw = self.tr_node(ar, n);
                let can = self.tr(ar, *v);
                unsafe {
                    diffs.push(Z3_mk_xor(self.ctx, raw, can));
                }
            }
            unsafe {
                let d = Z3_mk_or(self.ctx, diffs.len() as u32, diffs.as_ptr());
                Z3_solver_push(self.ctx, self.solver);
                Z3_solver_assert(self.ctx, self.solver, d);
                let k = Z3_solver_check(self.ctx, self.solver);
                Z3_solver_pop(self.ctx, self.solver, 1);
                self.stats.validations += 1;
                self.stats.validated_rewrites += ch.len() as u64;
                self.stats.queries += 1;
                self.stats.time_us += t.elapsed().as_micros() as u64;
                if k != -1 {
                    return Err(format!("canonicalisation not confirmed by the solver (verdict {})", k));
                }
                self.stats.unsat += 1;
            }
        }
        let _ = unsafe { Z3_mk_not(self.ctx, Z3_mk_true(self.ctx)) };
        Ok(())
    }
}
