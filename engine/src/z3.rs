//! Minimal FFI to the z3 C API (only what the executor needs).
#![allow(non_camel_case_types, dead_code)]
use std::ffi::{c_char, c_int, c_uint, c_void, CStr, CString};

pub type Ast = *mut c_void;
type Ctx = *mut c_void;
type Solver = *mut c_void;
type Model = *mut c_void;
type Sort = *mut c_void;
type Params = *mut c_void;
type Sym = *mut c_void;

extern "C" {
    fn Z3_mk_config() -> *mut c_void;
    fn Z3_mk_context(c: *mut c_void) -> Ctx;
    fn Z3_set_error_handler(c: Ctx, h: Option<extern "C" fn(Ctx, c_int)>);
    fn Z3_get_error_msg(c: Ctx, e: c_int) -> *const c_char;
    fn Z3_mk_string_symbol(c: Ctx, s: *const c_char) -> Sym;
    fn Z3_mk_bv_sort(c: Ctx, w: c_uint) -> Sort;
    fn Z3_mk_const(c: Ctx, s: Sym, so: Sort) -> Ast;
    fn Z3_mk_unsigned_int64(c: Ctx, v: u64, so: Sort) -> Ast;
    fn Z3_mk_numeral(c: Ctx, s: *const c_char, so: Sort) -> Ast;
    fn Z3_mk_eq(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_not(c: Ctx, a: Ast) -> Ast;
    fn Z3_mk_ite(c: Ctx, a: Ast, b: Ast, d: Ast) -> Ast;
    fn Z3_mk_bvnot(c: Ctx, a: Ast) -> Ast;
    fn Z3_mk_bvand(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvor(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvxor(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvadd(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvsub(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvmul(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvudiv(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvurem(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvsdiv(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvsrem(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvshl(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvlshr(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvashr(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvult(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvule(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvslt(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvsle(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_concat(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_extract(c: Ctx, hi: c_uint, lo: c_uint, a: Ast) -> Ast;
    fn Z3_mk_zero_ext(c: Ctx, n: c_uint, a: Ast) -> Ast;
    fn Z3_mk_sign_ext(c: Ctx, n: c_uint, a: Ast) -> Ast;
    fn Z3_mk_solver_for_logic(c: Ctx, s: Sym) -> Solver;
    fn Z3_solver_inc_ref(c: Ctx, s: Solver);
    fn Z3_solver_assert(c: Ctx, s: Solver, a: Ast);
    fn Z3_solver_push(c: Ctx, s: Solver);
    fn Z3_solver_pop(c: Ctx, s: Solver, n: c_uint);
    fn Z3_solver_check(c: Ctx, s: Solver) -> c_int;
    fn Z3_solver_get_model(c: Ctx, s: Solver) -> Model;
    fn Z3_solver_set_params(c: Ctx, s: Solver, p: Params);
    fn Z3_mk_params(c: Ctx) -> Params;
    fn Z3_params_set_uint(c: Ctx, p: Params, k: Sym, v: c_uint);
    fn Z3_model_inc_ref(c: Ctx, m: Model);
    fn Z3_model_dec_ref(c: Ctx, m: Model);
    fn Z3_model_eval(c: Ctx, m: Model, a: Ast, completion: bool, out: *mut Ast) -> bool;
    fn Z3_get_numeral_uint64(c: Ctx, a: Ast, out: *mut u64) -> bool;
}

extern "C" fn on_error(c: Ctx, e: c_int) {
    let m = unsafe { CStr::from_ptr(Z3_get_error_msg(c, e)) };
    eprintln!("symx: z3 error: {:?}", m);
    std::process::abort();
}

pub struct Z3 {
    ctx: Ctx,
    solver: Solver,
    sorts: Vec<Sort>,
    pub one: Ast,
    pub queries: u64,
    pub nanos: u64,
}

#[derive(PartialEq, Clone, Copy, Debug)]
pub enum Res { Sat, Unsat, Unknown }

macro_rules! bin {
    ($($n:ident => $f:ident),*) => { $( pub fn $n(&self, a: Ast, b: Ast) -> Ast { unsafe { $f(self.ctx, a, b) } } )* };
}

impl Z3 {
    pub fn new(rlimit: u32) -> Z3 {
        unsafe {
            let cfg = Z3_mk_config();
            let ctx = Z3_mk_context(cfg);
            Z3_set_error_handler(ctx, Some(on_error));
            let l = CString::new("QF_BV").unwrap();
            let solver = Z3_mk_solver_for_logic(ctx, Z3_mk_string_symbol(ctx, l.as_ptr()));
            Z3_solver_inc_ref(ctx, solver);
            let p = Z3_mk_params(ctx);
            let k = CString::new("rlimit").unwrap();
            if rlimit > 0 {
                Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, k.as_ptr()), rlimit);
                Z3_solver_set_params(ctx, solver, p);
            }
            let mut z = Z3 { ctx, solver, sorts: vec![std::ptr::null_mut(); 520], one: std::ptr::null_mut(), queries: 0, nanos: 0 };
            z.one = z.num(1, 1);
            z
        }
    }
    fn sort(&mut self, w: u32) -> Sort {
        let w = w as usize;
        if self.sorts[w].is_null() { self.sorts[w] = unsafe { Z3_mk_bv_sort(self.ctx, w as u32) }; }
        self.sorts[w]
    }
    pub fn var(&mut self, name: &str, w: u32) -> Ast {
        let n = CString::new(name).unwrap();
        let so = self.sort(w);
        unsafe { Z3_mk_const(self.ctx, Z3_mk_string_symbol(self.ctx, n.as_ptr()), so) }
    }
    pub fn num(&mut self, v: u128, w: u32) -> Ast {
        let so = self.sort(w);
        if v <= u64::MAX as u128 { unsafe { Z3_mk_unsigned_int64(self.ctx, v as u64, so) } }
        else { let s = CString::new(v.to_string()).unwrap(); unsafe { Z3_mk_numeral(self.ctx, s.as_ptr(), so) } }
    }
    bin!(bvand => Z3_mk_bvand, bvor => Z3_mk_bvor, bvxor => Z3_mk_bvxor, bvadd => Z3_mk_bvadd, bvsub => Z3_mk_bvsub,
         bvmul => Z3_mk_bvmul, bvudiv => Z3_mk_bvudiv, bvurem => Z3_mk_bvurem, bvsdiv => Z3_mk_bvsdiv, bvsrem => Z3_mk_bvsrem,
         bvshl => Z3_mk_bvshl, bvlshr => Z3_mk_bvlshr, bvashr => Z3_mk_bvashr, concat => Z3_mk_concat,
         eq => Z3_mk_eq, ult => Z3_mk_bvult, ule => Z3_mk_bvule, slt => Z3_mk_bvslt, sle => Z3_mk_bvsle);
    pub fn not(&self, a: Ast) -> Ast { unsafe { Z3_mk_not(self.ctx, a) } }
    pub fn bvnot(&self, a: Ast) -> Ast { unsafe { Z3_mk_bvnot(self.ctx, a) } }
    pub fn ite(&self, c: Ast, a: Ast, b: Ast) -> Ast { unsafe { Z3_mk_ite(self.ctx, c, a, b) } }
    pub fn extract(&self, hi: u32, lo: u32, a: Ast) -> Ast { unsafe { Z3_mk_extract(self.ctx, hi, lo, a) } }
    pub fn zext(&self, n: u32, a: Ast) -> Ast { unsafe { Z3_mk_zero_ext(self.ctx, n, a) } }
    pub fn sext(&self, n: u32, a: Ast) -> Ast { unsafe { Z3_mk_sign_ext(self.ctx, n, a) } }
    pub fn assert(&self, b: Ast) { unsafe { Z3_solver_assert(self.ctx, self.solver, b) } }
    /// check PC and `extra`; on sat, evaluate `vars` under the model
    pub fn check(&mut self, extra: Option<Ast>, vars: &[Ast]) -> (Res, Vec<u64>) {
        let t = std::time::Instant::now();
        self.queries += 1;
        unsafe {
            Z3_solver_push(self.ctx, self.solver);
            if let Some(e) = extra { Z3_solver_assert(self.ctx, self.solver, e); }
            let r = Z3_solver_check(self.ctx, self.solver);
            let mut out = vec![];
            let res = match r { 1 => Res::Sat, -1 => Res::Unsat, _ => Res::Unknown };
            if res == Res::Sat {
                let m = Z3_solver_get_model(self.ctx, self.solver);
                Z3_model_inc_ref(self.ctx, m);
                for &v in vars {
                    let mut a: Ast = std::ptr::null_mut();
                    let mut x = 0u64;
                    if Z3_model_eval(self.ctx, m, v, true, &mut a) { Z3_get_numeral_uint64(self.ctx, a, &mut x); }
                    out.push(x);
                }
                Z3_model_dec_ref(self.ctx, m);
            }
            Z3_solver_pop(self.ctx, self.solver, 1);
            self.nanos += t.elapsed().as_nanos() as u64;
            (res, out)
        }
    }
}
