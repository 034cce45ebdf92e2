//! Minimal binding to the z3 C API.
#![allow(non_camel_case_types, non_snake_case)]
use std::ffi::{CStr, CString};
use std::os::raw::{c_char, c_int, c_uint};
pub enum CtxS {}
pub type Ctx = *mut CtxS;
pub type Ast = *mut u8;
pub type Sort = *mut u8;
pub type Sym = *mut u8;
pub type Cfg = *mut u8;
pub type Solver = *mut u8;
pub type Model = *mut u8;
pub type Params = *mut u8;
extern "C" {
    fn Z3_mk_config() -> Cfg;
    fn Z3_set_param_value(c: Cfg, k: *const c_char, v: *const c_char);
    fn Z3_mk_context_rc(c: Cfg) -> Ctx;
    fn Z3_del_config(c: Cfg);
    fn Z3_set_error_handler(c: Ctx, h: Option<extern "C" fn(Ctx, c_uint)>);
    fn Z3_get_error_code(c: Ctx) -> c_uint;
    fn Z3_mk_int_sort(c: Ctx) -> Sort;
    fn Z3_mk_real_sort(c: Ctx) -> Sort;
    fn Z3_mk_string_symbol(c: Ctx, s: *const c_char) -> Sym;
    fn Z3_mk_const(c: Ctx, s: Sym, t: Sort) -> Ast;
    fn Z3_mk_numeral(c: Ctx, s: *const c_char, t: Sort) -> Ast;
    fn Z3_mk_add(c: Ctx, n: c_uint, a: *const Ast) -> Ast;
    fn Z3_mk_mul(c: Ctx, n: c_uint, a: *const Ast) -> Ast;
    fn Z3_mk_eq(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_lt(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_le(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_not(c: Ctx, a: Ast) -> Ast;
    fn Z3_mk_and(c: Ctx, n: c_uint, a: *const Ast) -> Ast;
    fn Z3_mk_or(c: Ctx, n: c_uint, a: *const Ast) -> Ast;
    fn Z3_mk_true(c: Ctx) -> Ast;
    fn Z3_mk_false(c: Ctx) -> Ast;
    fn Z3_mk_int2real(c: Ctx, a: Ast) -> Ast;
    fn Z3_inc_ref(c: Ctx, a: Ast);
    fn Z3_dec_ref(c: Ctx, a: Ast);
    fn Z3_mk_simple_solver(c: Ctx) -> Solver;
    fn Z3_mk_solver_for_logic(c: Ctx, s: Sym) -> Solver;
    fn Z3_solver_inc_ref(c: Ctx, s: Solver);
    fn Z3_solver_dec_ref(c: Ctx, s: Solver);
    fn Z3_solver_push(c: Ctx, s: Solver);
    fn Z3_solver_pop(c: Ctx, s: Solver, n: c_uint);
    fn Z3_solver_assert(c: Ctx, s: Solver, a: Ast);
    fn Z3_solver_check(c: Ctx, s: Solver) -> c_int;
    fn Z3_solver_get_model(c: Ctx, s: Solver) -> Model;
    fn Z3_solver_set_params(c: Ctx, s: Solver, p: Params);
    fn Z3_solver_to_string(c: Ctx, s: Solver) -> *const c_char;
    fn Z3_mk_params(c: Ctx) -> Params;
    fn Z3_params_inc_ref(c: Ctx, p: Params);
    fn Z3_params_dec_ref(c: Ctx, p: Params);
    fn Z3_params_set_uint(c: Ctx, p: Params, k: Sym, v: c_uint);
    fn Z3_model_inc_ref(c: Ctx, m: Model);
    fn Z3_model_dec_ref(c: Ctx, m: Model);
    fn Z3_model_eval(c: Ctx, m: Model, a: Ast, completion: bool, out: *mut Ast) -> bool;
    fn Z3_get_numeral_string(c: Ctx, a: Ast) -> *const c_char;
    fn Z3_is_algebraic_number(c: Ctx, a: Ast) -> bool;
    fn Z3_get_algebraic_number_lower(c: Ctx, a: Ast, prec: c_uint) -> Ast;
    fn Z3_get_full_version() -> *const c_char;
    fn Z3_interrupt(c: Ctx);
}
extern "C" fn on_error(_c: Ctx, _e: c_uint) {}

#[derive(PartialEq, Eq, Clone, Copy, Debug)]
pub enum Sat {
    Sat,
    Unsat,
    Unknown,
}

/// contexts that may be interrupted, and since when each has been busy (ms, 0: idle)
pub struct Watched(usize, std::sync::Arc<AtomicU64>);
static WATCH: Mutex<Vec<Watched>> = Mutex::new(vec![]);
fn now_ms() -> u64 {
    static T0: OnceLock<std::time::Instant> = OnceLock::new();
    T0.get_or_init(std::time::Instant::now).elapsed().as_millis() as u64 + 1
}
/// interrupts what has run for longer than the limit: z3 does not always see its own timeout
pub fn interrupt_long(limit_ms: u64) {
    let now = now_ms();
    for w in WATCH.lock().unwrap().iter() {
        let t = w.1.load(AO::SeqCst);
        if t > 0 && now > t + limit_ms {
            unsafe { Z3_interrupt(w.0 as Ctx) }
        }
    }
}
impl Drop for Z3 {
    fn drop(&mut self) {
        WATCH.lock().unwrap().retain(|w| w.0 != self.c as usize);
    }
}
use std::sync::atomic::{AtomicU64, Ordering as AO};
use std::sync::{Mutex, OnceLock};

pub struct Z3 {
    busy: std::sync::Arc<AtomicU64>,
    pub c: Ctx,
    pub s: Solver,
    int: Sort,
    real: Sort,
    keep: Vec<Ast>,
    pub level: usize,
}

pub fn version() -> String {
    unsafe { CStr::from_ptr(Z3_get_full_version()).to_string_lossy().into_owned() }
}

impl Z3 {
    pub fn new(timeout_ms: u32) -> Z3 {
        unsafe {
            let cfg = Z3_mk_config();
            let k = CString::new("model").unwrap();
            let v = CString::new("true").unwrap();
            Z3_set_param_value(cfg, k.as_ptr(), v.as_ptr());
            let c = Z3_mk_context_rc(cfg);
            Z3_del_config(cfg);
            Z3_set_error_handler(c, Some(on_error));
            let s = Z3_mk_simple_solver(c);
            Z3_solver_inc_ref(c, s);
            let int = Z3_mk_int_sort(c);
            let real = Z3_mk_real_sort(c);
            Z3_inc_ref(c, int);
            Z3_inc_ref(c, real);
            let busy = std::sync::Arc::new(AtomicU64::new(0));
            WATCH.lock().unwrap().push(Watched(c as usize, busy.clone()));
            let mut z = Z3 { busy, c, s, int, real, keep: vec![], level: 0 };
            z.set_timeout(timeout_ms);
            z
        }
    }
    fn set_timeout_on(&self, s: Solver, ms: u32) {
        unsafe {
            let p = Z3_mk_params(self.c);
            Z3_params_inc_ref(self.c, p);
            let k = CString::new("timeout").unwrap();
            Z3_params_set_uint(self.c, p, Z3_mk_string_symbol(self.c, k.as_ptr()), ms);
            let k = CString::new("random_seed").unwrap();
            Z3_params_set_uint(self.c, p, Z3_mk_string_symbol(self.c, k.as_ptr()), 0);
            Z3_solver_set_params(self.c, s, p);
            Z3_params_dec_ref(self.c, p);
        }
    }
    pub fn set_timeout(&mut self, ms: u32) {
        self.set_timeout_on(self.s, ms)
    }
    fn k(&mut self, a: Ast) -> Ast {
        unsafe { Z3_inc_ref(self.c, a) };
        self.keep.push(a);
        a
    }
    pub fn clear_asts(&mut self) {
        for a in self.keep.drain(..) {
            unsafe { Z3_dec_ref(self.c, a) }
        }
    }
    pub fn var(&mut self, name: &str, int: bool) -> Ast {
        let n = CString::new(name).unwrap();
        unsafe {
            let a = Z3_mk_const(
                self.c,
                Z3_mk_string_symbol(self.c, n.as_ptr()),
                if int { self.int } else { self.real },
            );
            self.k(a)
        }
    }
    pub fn num(&mut self, s: &str, int: bool) -> Ast {
        let n = CString::new(s).unwrap();
        unsafe {
            let a = Z3_mk_numeral(self.c, n.as_ptr(), if int { self.int } else { self.real });
            self.k(a)
        }
    }
    pub fn add(&mut self, v: &[Ast]) -> Ast {
        if v.len() == 1 {
            return v[0];
        }
        unsafe {
            let a = Z3_mk_add(self.c, v.len() as c_uint, v.as_ptr());
            self.k(a)
        }
    }
    pub fn mul(&mut self, v: &[Ast]) -> Ast {
        if v.len() == 1 {
            return v[0];
        }
        unsafe {
            let a = Z3_mk_mul(self.c, v.len() as c_uint, v.as_ptr());
            self.k(a)
        }
    }
    pub fn int2real(&mut self, x: Ast) -> Ast {
        unsafe {
            let a = Z3_mk_int2real(self.c, x);
            self.k(a)
        }
    }
    pub fn eq(&mut self, x: Ast, y: Ast) -> Ast {
        unsafe {
            let a = Z3_mk_eq(self.c, x, y);
            self.k(a)
        }
    }
    pub fn lt(&mut self, x: Ast, y: Ast) -> Ast {
        unsafe {
            let a = Z3_mk_lt(self.c, x, y);
            self.k(a)
        }
    }
    pub fn le(&mut self, x: Ast, y: Ast) -> Ast {
        unsafe {
            let a = Z3_mk_le(self.c, x, y);
            self.k(a)
        }
    }
    pub fn not(&mut self, x: Ast) -> Ast {
        unsafe {
            let a = Z3_mk_not(self.c, x);
            self.k(a)
        }
    }
    pub fn and(&mut self, v: &[Ast]) -> Ast {
        unsafe {
            let a = Z3_mk_and(self.c, v.len() as c_uint, v.as_ptr());
            self.k(a)
        }
    }
    pub fn or(&mut self, v: &[Ast]) -> Ast {
        unsafe {
            let a = Z3_mk_or(self.c, v.len() as c_uint, v.as_ptr());
            self.k(a)
        }
    }
    pub fn boolean(&mut self, b: bool) -> Ast {
        unsafe {
            let a = if b { Z3_mk_true(self.c) } else { Z3_mk_false(self.c) };
            self.k(a)
        }
    }
    pub fn push(&mut self) {
        unsafe { Z3_solver_push(self.c, self.s) }
        self.level += 1;
    }
    pub fn pop(&mut self, n: usize) {
        if n > 0 {
            unsafe { Z3_solver_pop(self.c, self.s, n as c_uint) }
            self.level -= n;
        }
    }
    pub fn assert(&mut self, a: Ast) {
        unsafe { Z3_solver_assert(self.c, self.s, a) }
    }
    fn to_sat(&self, r: c_int) -> Sat {
        if unsafe { Z3_get_error_code(self.c) } != 0 {
            return Sat::Unknown;
        }
        match r {
            1 => Sat::Sat,
            -1 => Sat::Unsat,
            _ => Sat::Unknown,
        }
    }
    pub fn check(&mut self) -> Sat {
        self.busy.store(now_ms(), AO::SeqCst);
        let r = unsafe { Z3_solver_check(self.c, self.s) };
        self.busy.store(0, AO::SeqCst);
        self.to_sat(r)
    }
    /// check of the given assertions in a fresh solver of the given logic
    pub fn check_fresh(&mut self, logic: &str, asserts: &[Ast], timeout: u32, vars: &[Ast]) -> (Sat, Vec<Option<String>>) {
        unsafe {
            let l = CString::new(logic).unwrap();
            let s = Z3_mk_solver_for_logic(self.c, Z3_mk_string_symbol(self.c, l.as_ptr()));
            Z3_solver_inc_ref(self.c, s);
            self.set_timeout_on(s, timeout);
            for a in asserts {
                Z3_solver_assert(self.c, s, *a);
            }
            self.busy.store(now_ms(), AO::SeqCst);
            let r = Z3_solver_check(self.c, s);
            self.busy.store(0, AO::SeqCst);
            let r = self.to_sat(r);
            let m = if r == Sat::Sat { self.model_of(s, vars) } else { vec![] };
            Z3_solver_dec_ref(self.c, s);
            (r, m)
        }
    }
    pub fn model(&mut self, vars: &[Ast]) -> Vec<Option<String>> {
        self.model_of(self.s, vars)
    }
    fn model_of(&self, s: Solver, vars: &[Ast]) -> Vec<Option<String>> {
        unsafe {
            let m = Z3_solver_get_model(self.c, s);
            if m.is_null() {
                return vars.iter().map(|_| None).collect();
            }
            Z3_model_inc_ref(self.c, m);
            let r = vars
                .iter()
                .map(|v| {
                    let mut out: Ast = std::ptr::null_mut();
                    if !Z3_model_eval(self.c, m, *v, true, &mut out) || out.is_null() {
                        return None;
                    }
                    Z3_inc_ref(self.c, out);
                    let res = if Z3_is_algebraic_number(self.c, out) {
                        let lo = Z3_get_algebraic_number_lower(self.c, out, 40);
                        Z3_inc_ref(self.c, lo);
                        let s = CStr::from_ptr(Z3_get_numeral_string(self.c, lo)).to_string_lossy().into_owned();
                        Z3_dec_ref(self.c, lo);
                        Some(s)
                    } else {
                        let p = Z3_get_numeral_string(self.c, out);
                        if p.is_null() {
                            None
                        } else {
                            Some(CStr::from_ptr(p).to_string_lossy().into_owned())
                        }
                    };
                    Z3_dec_ref(self.c, out);
                    res
                })
                .collect();
            Z3_model_dec_ref(self.c, m);
            r
        }
    }
    pub fn dump(&self) -> String {
        unsafe { CStr::from_ptr(Z3_solver_to_string(self.c, self.s)).to_string_lossy().into_owned() }
    }
}
