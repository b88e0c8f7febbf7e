//! Minimal FFI to libz3 (bit-vector fragment).
use crate::expr::{Arena, Eid, N};
use crate::ir::{B, P};
use std::collections::HashMap;
use std::ffi::{c_char, c_int, c_uint, c_void, CString};

type Ctx = *mut c_void;
type Ast = *mut c_void;
type Sort = *mut c_void;
type Solver = *mut c_void;
type Sym = *mut c_void;
type Cfg = *mut c_void;
type Mdl = *mut c_void;
type Params = *mut c_void;

#[allow(dead_code)]
extern "C" {
    fn Z3_mk_config() -> Cfg;
    fn Z3_del_config(c: Cfg);
    fn Z3_mk_context(c: Cfg) -> Ctx;
    fn Z3_del_context(c: Ctx);
    fn Z3_mk_solver_for_logic(c: Ctx, l: Sym) -> Solver;
    fn Z3_mk_simple_solver(c: Ctx) -> Solver;
    fn Z3_solver_inc_ref(c: Ctx, s: Solver);
    fn Z3_solver_dec_ref(c: Ctx, s: Solver);
    fn Z3_solver_push(c: Ctx, s: Solver);
    fn Z3_solver_pop(c: Ctx, s: Solver, n: c_uint);
    fn Z3_solver_reset(c: Ctx, s: Solver);
    fn Z3_solver_assert(c: Ctx, s: Solver, a: Ast);
    fn Z3_solver_check(c: Ctx, s: Solver) -> c_int;
    fn Z3_solver_check_assumptions(c: Ctx, s: Solver, n: c_uint, a: *const Ast) -> c_int;
    fn Z3_solver_get_model(c: Ctx, s: Solver) -> Mdl;
    fn Z3_model_inc_ref(c: Ctx, m: Mdl);
    fn Z3_model_dec_ref(c: Ctx, m: Mdl);
    fn Z3_model_eval(c: Ctx, m: Mdl, a: Ast, compl: bool, out: *mut Ast) -> bool;
    fn Z3_get_numeral_uint64(c: Ctx, a: Ast, out: *mut u64) -> bool;
    fn Z3_mk_bv_sort(c: Ctx, w: c_uint) -> Sort;
    fn Z3_mk_bool_sort(c: Ctx) -> Sort;
    fn Z3_mk_string_symbol(c: Ctx, s: *const c_char) -> Sym;
    fn Z3_mk_const(c: Ctx, s: Sym, t: Sort) -> Ast;
    fn Z3_mk_numeral(c: Ctx, s: *const c_char, t: Sort) -> Ast;
    fn Z3_mk_unsigned_int64(c: Ctx, v: u64, t: Sort) -> Ast;
    fn Z3_mk_true(c: Ctx) -> Ast;
    fn Z3_mk_false(c: Ctx) -> Ast;
    fn Z3_mk_implies(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_not(c: Ctx, a: Ast) -> Ast;
    fn Z3_mk_and(c: Ctx, n: c_uint, a: *const Ast) -> Ast;
    fn Z3_mk_or(c: Ctx, n: c_uint, a: *const Ast) -> Ast;
    fn Z3_mk_xor(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_ite(c: Ctx, a: Ast, b: Ast, d: Ast) -> Ast;
    fn Z3_mk_eq(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvadd(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvsub(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvmul(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvudiv(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvsdiv(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvurem(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvsrem(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvshl(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvlshr(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvashr(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvand(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvor(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvxor(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvult(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvule(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvslt(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvsle(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_concat(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_extract(c: Ctx, hi: c_uint, lo: c_uint, a: Ast) -> Ast;
    fn Z3_mk_zero_ext(c: Ctx, n: c_uint, a: Ast) -> Ast;
    fn Z3_mk_sign_ext(c: Ctx, n: c_uint, a: Ast) -> Ast;
    fn Z3_mk_params(c: Ctx) -> Params;
    fn Z3_params_inc_ref(c: Ctx, p: Params);
    fn Z3_params_set_uint(c: Ctx, p: Params, k: Sym, v: c_uint);
    fn Z3_solver_set_params(c: Ctx, s: Solver, p: Params);
    fn Z3_ast_to_string(c: Ctx, a: Ast) -> *const c_char;
    fn Z3_solver_to_string(c: Ctx, s: Solver) -> *const c_char;
    fn Z3_set_error_handler(c: Ctx, h: extern "C" fn(Ctx, c_int));
    fn Z3_get_error_msg(c: Ctx, e: c_int) -> *const c_char;
}

extern "C" fn on_err(c: Ctx, e: c_int) {
    unsafe {
        let m = Z3_get_error_msg(c, e);
        eprintln!("z3 error: {}", std::ffi::CStr::from_ptr(m).to_string_lossy());
    }
    std::process::exit(3);
}

pub struct Z3 {
    c: Ctx,
    s: Solver,
    memo_bv: HashMap<Eid, Ast>,
    memo_b: HashMap<Eid, Ast>,
    stack: Vec<Eid>,
    lits: HashMap<Eid, Ast>,
    mode: u8,
    timeout_ms: u32,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Sat {
    Sat,
    Unsat,
    Unknown,
}

impl Drop for Z3 {
    fn drop(&mut self) {
        unsafe {
            Z3_solver_dec_ref(self.c, self.s);
            Z3_del_context(self.c);
        }
    }
}

impl Z3 {
    pub fn new(timeout_ms: u32) -> Z3 {
        unsafe {
            let cfg = Z3_mk_config();
            let c = Z3_mk_context(cfg);
            Z3_del_config(cfg);
            Z3_set_error_handler(c, on_err);
            let l = CString::new(std::env::var("SYMX_LOGIC").unwrap_or("QF_BV".into())).unwrap();
            let s = if l.as_bytes() == b"simple" { Z3_mk_simple_solver(c) } else { Z3_mk_solver_for_logic(c, Z3_mk_string_symbol(c, l.as_ptr())) };
            Z3_solver_inc_ref(c, s);
            let p = Z3_mk_params(c);
            Z3_params_inc_ref(c, p);
            let k = CString::new("timeout").unwrap();
            Z3_params_set_uint(c, p, Z3_mk_string_symbol(c, k.as_ptr()), timeout_ms);
            Z3_solver_set_params(c, s, p);
            Z3 { c, s, memo_bv: HashMap::new(), memo_b: HashMap::new(), stack: vec![], lits: HashMap::new(), mode: std::env::var("SYMX_MODE").map(|x| x.parse().unwrap()).unwrap_or(0), timeout_ms }
        }
    }
    pub fn memo_len(&self) -> usize {
        self.memo_bv.len() + self.memo_b.len()
    }
    fn num(&self, v: u128, w: u8) -> Ast {
        unsafe {
            let s = Z3_mk_bv_sort(self.c, w as c_uint);
            if v <= u64::MAX as u128 {
                Z3_mk_unsigned_int64(self.c, v as u64, s)
            } else {
                let t = CString::new(v.to_string()).unwrap();
                Z3_mk_numeral(self.c, t.as_ptr(), s)
            }
        }
    }
    fn bv(&mut self, ar: &Arena, e: Eid) -> Ast {
        if let Some(&a) = self.memo_bv.get(&e) {
            return a;
        }
        let c = self.c;
        let w = ar.w(e);
        let r = unsafe {
            match ar.n(e) {
                N::Const(v) => self.num(v, w),
                N::Var(k) => {
                    if w == 1 {
                        let b = self.boolean(ar, e);
                        let (one, zero) = (self.num(1, 1), self.num(0, 1));
                        Z3_mk_ite(c, b, one, zero)
                    } else {
                        let n = CString::new(format!("v{k}")).unwrap();
                        let v = Z3_mk_const(c, Z3_mk_string_symbol(c, n.as_ptr()), Z3_mk_bv_sort(c, w as c_uint));
                        let max = ar.varinfo[k as usize].1.max;
                        if max as u128 == crate::expr::mask(w) {
                            v
                        } else {
                            // the declared range is built into the variable's term
                            let (mx, zero) = (self.num(max as u128, w), self.num(0, w));
                            Z3_mk_ite(c, Z3_mk_bvule(c, v, mx), v, zero)
                        }
                    }
                }
                N::Bin(op, a, b) if w > 1 => {
                    let x = self.bv(ar, a);
                    let y = self.bv(ar, b);
                    match op {
                        B::Add => Z3_mk_bvadd(c, x, y),
                        B::Sub => Z3_mk_bvsub(c, x, y),
                        B::Mul => Z3_mk_bvmul(c, x, y),
                        B::UDiv => Z3_mk_bvudiv(c, x, y),
                        B::SDiv => Z3_mk_bvsdiv(c, x, y),
                        B::URem => Z3_mk_bvurem(c, x, y),
                        B::SRem => Z3_mk_bvsrem(c, x, y),
                        B::Shl => Z3_mk_bvshl(c, x, y),
                        B::LShr => Z3_mk_bvlshr(c, x, y),
                        B::AShr => Z3_mk_bvashr(c, x, y),
                        B::And => Z3_mk_bvand(c, x, y),
                        B::Or => Z3_mk_bvor(c, x, y),
                        B::Xor => Z3_mk_bvxor(c, x, y),
                    }
                }
                N::Ite(k, a, b) if w > 1 => {
                    let kc = self.boolean(ar, k);
                    let x = self.bv(ar, a);
                    let y = self.bv(ar, b);
                    Z3_mk_ite(c, kc, x, y)
                }
                N::ZExt(a) => {
                    let aw = ar.w(a);
                    let x = self.bv(ar, a);
                    Z3_mk_zero_ext(c, (w - aw) as c_uint, x)
                }
                N::SExt(a) => {
                    let aw = ar.w(a);
                    let x = self.bv(ar, a);
                    Z3_mk_sign_ext(c, (w - aw) as c_uint, x)
                }
                N::Extract(a, lo) => {
                    let x = self.bv(ar, a);
                    Z3_mk_extract(c, lo as c_uint + w as c_uint - 1, lo as c_uint, x)
                }
                N::Concat(a, b) => {
                    let x = self.bv(ar, a);
                    let y = self.bv(ar, b);
                    Z3_mk_concat(c, x, y)
                }
                _ => {
                    let b = self.boolean(ar, e);
                    let (one, zero) = (self.num(1, 1), self.num(0, 1));
                    Z3_mk_ite(c, b, one, zero)
                }
            }
        };
        self.memo_bv.insert(e, r);
        r
    }
    fn boolean(&mut self, ar: &Arena, e: Eid) -> Ast {
        if let Some(&a) = self.memo_b.get(&e) {
            return a;
        }
        let c = self.c;
        let r = unsafe {
            match ar.n(e) {
                N::Const(v) => {
                    if v == 1 {
                        Z3_mk_true(c)
                    } else {
                        Z3_mk_false(c)
                    }
                }
                N::Var(k) => {
                    let n = CString::new(format!("v{k}")).unwrap();
                    Z3_mk_const(c, Z3_mk_string_symbol(c, n.as_ptr()), Z3_mk_bool_sort(c))
                }
                N::Not(a) => {
                    let x = self.boolean(ar, a);
                    Z3_mk_not(c, x)
                }
                N::Bin(op @ (B::And | B::Or | B::Xor), a, b) => {
                    let x = self.boolean(ar, a);
                    let y = self.boolean(ar, b);
                    match op {
                        B::And => Z3_mk_and(c, 2, [x, y].as_ptr()),
                        B::Or => Z3_mk_or(c, 2, [x, y].as_ptr()),
                        _ => Z3_mk_xor(c, x, y),
                    }
                }
                N::Ite(k, a, b) => {
                    let kc = self.boolean(ar, k);
                    let x = self.boolean(ar, a);
                    let y = self.boolean(ar, b);
                    Z3_mk_ite(c, kc, x, y)
                }
                N::Cmp(p, a, b) => {
                    if ar.w(a) == 1 && matches!(p, P::Eq | P::Ne) {
                        let x = self.boolean(ar, a);
                        let y = self.boolean(ar, b);
                        let q = Z3_mk_eq(c, x, y);
                        if p == P::Eq {
                            q
                        } else {
                            Z3_mk_not(c, q)
                        }
                    } else {
                        let x = self.bv(ar, a);
                        let y = self.bv(ar, b);
                        match p {
                            P::Eq => Z3_mk_eq(c, x, y),
                            P::Ne => {
                                let q = Z3_mk_eq(c, x, y);
                                Z3_mk_not(c, q)
                            }
                            P::Ult => Z3_mk_bvult(c, x, y),
                            P::Ule => Z3_mk_bvule(c, x, y),
                            P::Slt => Z3_mk_bvslt(c, x, y),
                            P::Sle => Z3_mk_bvsle(c, x, y),
                            _ => unreachable!(),
                        }
                    }
                }
                N::Extract(..) | N::Bin(..) | N::SExt(_) | N::ZExt(_) | N::Concat(..) => {
                    let x = match ar.n(e) {
                        N::Extract(a, lo) => {
                            let x = self.bv(ar, a);
                            Z3_mk_extract(c, lo as c_uint, lo as c_uint, x)
                        }
                        n => panic!("width-1 node {n:?}"),
                    };
                    let one = self.num(1, 1);
                    Z3_mk_eq(c, x, one)
                }
            }
        };
        self.memo_b.insert(e, r);
        r
    }
    /// Is `pc && cond` satisfiable?  `pc` is kept on an assertion stack between calls.
    /// On Sat returns values for the given variables.
    pub fn check(&mut self, ar: &Arena, pc: &[Eid], cond: Eid, vars: &[Eid]) -> (Sat, Vec<u64>) {
        if self.mode == 1 {
            return self.check_lits(ar, pc, cond, vars);
        }
        unsafe {
            if self.mode == 2 {
                Z3_solver_reset(self.c, self.s);
                self.stack.clear();
            }
            let mut k = 0;
            while k < self.stack.len() && k < pc.len() && self.stack[k] == pc[k] {
                k += 1;
            }
            let npop = self.stack.len() - k;
            if npop > 0 {
                Z3_solver_pop(self.c, self.s, npop as c_uint);
                self.stack.truncate(k);
            }
            for &p in &pc[k..] {
                Z3_solver_push(self.c, self.s);
                let a = self.boolean(ar, p);
                Z3_solver_assert(self.c, self.s, a);
                self.stack.push(p);
            }
            Z3_solver_push(self.c, self.s);
            let a = self.boolean(ar, cond);
            Z3_solver_assert(self.c, self.s, a);
            let r = Z3_solver_check(self.c, self.s);
            let mut out = vec![];
            let res = match r {
                1 => {
                    let m = Z3_solver_get_model(self.c, self.s);
                    Z3_model_inc_ref(self.c, m);
                    for &v in vars {
                        let x = self.bv(ar, v);
                        let mut o: Ast = std::ptr::null_mut();
                        let ok = Z3_model_eval(self.c, m, x, true, &mut o);
                        let mut val = 0u64;
                        let ok2 = ok && Z3_get_numeral_uint64(self.c, o, &mut val);
                        if !ok2 {
                            eprintln!("z3: model eval failed");
                            std::process::exit(3);
                        }
                        out.push(val);
                    }
                    Z3_model_dec_ref(self.c, m);
                    Sat::Sat
                }
                -1 => Sat::Unsat,
                _ => Sat::Unknown,
            };
            Z3_solver_pop(self.c, self.s, 1);
            (res, out)
        }
    }

    fn lit(&mut self, ar: &Arena, e: Eid) -> Ast {
        if let Some(&l) = self.lits.get(&e) {
            return l;
        }
        unsafe {
            let a = self.boolean(ar, e);
            let n = CString::new(format!("b{e}")).unwrap();
            let l = Z3_mk_const(self.c, Z3_mk_string_symbol(self.c, n.as_ptr()), Z3_mk_bool_sort(self.c));
            Z3_solver_assert(self.c, self.s, Z3_mk_implies(self.c, l, a));
            self.lits.insert(e, l);
            l
        }
    }
    /// Variant with one activation literal per condition, so that definitions are bit-blasted once.
    fn check_lits(&mut self, ar: &Arena, pc: &[Eid], cond: Eid, vars: &[Eid]) -> (Sat, Vec<u64>) {
        unsafe {
            let cap: usize = std::env::var("SYMX_LITS").map(|x| x.parse().unwrap()).unwrap_or(300);
            if self.lits.len() > cap {
                Z3_solver_reset(self.c, self.s);
                self.lits.clear();
            }
            let mut asm: Vec<Ast> = vec![];
            for &p in pc {
                asm.push(self.lit(ar, p));
            }
            asm.push(self.lit(ar, cond));
            let r = Z3_solver_check_assumptions(self.c, self.s, asm.len() as c_uint, asm.as_ptr());
            let mut out = vec![];
            let res = match r {
                1 => {
                    let m = Z3_solver_get_model(self.c, self.s);
                    Z3_model_inc_ref(self.c, m);
                    for &v in vars {
                        let x = self.bv(ar, v);
                        let mut o: Ast = std::ptr::null_mut();
                        let ok = Z3_model_eval(self.c, m, x, true, &mut o);
                        let mut val = 0u64;
                        let ok2 = ok && Z3_get_numeral_uint64(self.c, o, &mut val);
                        if !ok2 {
                            eprintln!("z3: model eval failed");
                            std::process::exit(3);
                        }
                        out.push(val);
                    }
                    Z3_model_dec_ref(self.c, m);
                    Sat::Sat
                }
                -1 => Sat::Unsat,
                _ => Sat::Unknown,
            };
            (res, out)
        }
    }
}
