//! Minimal FFI binding to libz3 and translation of expressions.
use crate::expr::*;
use std::collections::HashMap;
use std::ffi::CString;
use std::os::raw::{c_char, c_int, c_uint, c_void};
type P = *mut c_void;
#[link(name = "z3")]
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_del_config(c: P);
    fn Z3_mk_context_rc(c: P) -> P;
    fn Z3_set_error_handler(c: P, h: Option<extern "C" fn(P, c_int)>);
    fn Z3_inc_ref(c: P, a: P);
    fn Z3_dec_ref(c: P, a: P);
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_bv_sort(c: P, w: c_uint) -> P;
    fn Z3_mk_const(c: P, s: P, ty: P) -> P;
    fn Z3_mk_unsigned_int64(c: P, v: u64, ty: P) -> P;
    fn Z3_mk_true(c: P) -> P;
    fn Z3_mk_false(c: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_xor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvnot(c: P, a: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvule(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsle(c: P, a: P, b: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_zero_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_solver_for_logic(c: P, l: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_reset(c: P, s: P);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check_assumptions(c: P, s: P, n: c_uint, a: *const P) -> c_int;
    fn Z3_del_context(c: P);
    fn Z3_mk_bool_sort(c: P) -> P;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, t: P, compl: bool, out: *mut P) -> bool;
    fn Z3_get_numeral_uint64(c: P, a: P, out: *mut u64) -> bool;
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_get_version(a: *mut c_uint, b: *mut c_uint, c: *mut c_uint, d: *mut c_uint);
}
extern "C" fn on_err(_c: P, code: c_int) {
    eprintln!("z3 error code {code}");
    std::process::exit(3);
}
pub fn version() -> String {
    let (mut a, mut b, mut c, mut d) = (0, 0, 0, 0);
    unsafe { Z3_get_version(&mut a, &mut b, &mut c, &mut d) };
    format!("{a}.{b}.{c}.{d}")
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Res { Sat, Unsat, Unknown }

pub struct Z3 {
    c: P,
    s: P,
    bv: HashMap<E, P>,
    bl: HashMap<E, P>,
    sorts: HashMap<u8, P>,
    lits: HashMap<E, (P, P, P)>,
    defined: E,
}
impl Z3 {
    pub fn new(timeout_ms: u32) -> Self {
        unsafe {
            let cfg = Z3_mk_config();
            let c = Z3_mk_context_rc(cfg);
            Z3_del_config(cfg);
            Z3_set_error_handler(c, Some(on_err));
            let l = CString::new("QF_BV").unwrap();
            let s = Z3_mk_solver_for_logic(c, Z3_mk_string_symbol(c, l.as_ptr()));
            Z3_solver_inc_ref(c, s);
            let p = Z3_mk_params(c);
            Z3_params_inc_ref(c, p);
            let k = CString::new("timeout").unwrap();
            Z3_params_set_uint(c, p, Z3_mk_string_symbol(c, k.as_ptr()), timeout_ms);
            Z3_solver_set_params(c, s, p);
            Z3 { c, s, bv: HashMap::new(), bl: HashMap::new(), sorts: HashMap::new(), lits: HashMap::new(), defined: 0 }
        }
    }
    fn sort(&mut self, w: u8) -> P {
        let c = self.c;
        *self.sorts.entry(w).or_insert_with(|| unsafe { let s = Z3_mk_bv_sort(c, w as c_uint); Z3_inc_ref(c, s); s })
    }
    fn keep(&self, a: P) -> P { unsafe { Z3_inc_ref(self.c, a) }; a }
    fn num(&mut self, v: u128, w: u8) -> P {
        unsafe {
            if w <= 64 { let s = self.sort(w); return Z3_mk_unsigned_int64(self.c, v as u64, s); }
            let (sh, sl) = (self.sort(w - 64), self.sort(64));
            let h = self.keep(Z3_mk_unsigned_int64(self.c, (v >> 64) as u64, sh));
            let l = self.keep(Z3_mk_unsigned_int64(self.c, v as u64, sl));
            Z3_mk_concat(self.c, h, l)
        }
    }
    fn bvx(&mut self, x: &Ex, e: E) -> P {
        if let Some(&p) = self.bv.get(&e) { return p; }
        let c = self.c;
        let n = &x.nodes[e as usize];
        macro_rules! b { ($f:ident, $a:expr, $b:expr) => {{ let p = self.bvx(x, $a); let q = self.bvx(x, $b); unsafe { $f(c, p, q) } }}; }
        let p = match n.k {
            K::Var(i) => unsafe {
                let s = self.sort(8);
                let nm = CString::new(format!("x{i}")).unwrap();
                Z3_mk_const(c, Z3_mk_string_symbol(c, nm.as_ptr()), s)
            },
            K::Const(v) => self.num(v, n.w),
            K::Eq(..) | K::Ult(..) | K::Ule(..) | K::Slt(..) | K::Sle(..) => {
                let q = self.blx(x, e);
                let (o, z) = (self.num(1, 1), self.num(0, 1));
                self.keep(o); self.keep(z);
                unsafe { Z3_mk_ite(c, q, o, z) }
            }
            K::Not(a) => { let p = self.bvx(x, a); unsafe { Z3_mk_bvnot(c, p) } }
            K::And(a, d) => b!(Z3_mk_bvand, a, d),
            K::Or(a, d) => b!(Z3_mk_bvor, a, d),
            K::Xor(a, d) => b!(Z3_mk_bvxor, a, d),
            K::Add(a, d) => b!(Z3_mk_bvadd, a, d),
            K::Sub(a, d) => b!(Z3_mk_bvsub, a, d),
            K::Mul(a, d) => b!(Z3_mk_bvmul, a, d),
            K::UDiv(a, d) => b!(Z3_mk_bvudiv, a, d),
            K::URem(a, d) => b!(Z3_mk_bvurem, a, d),
            K::SDiv(a, d) => b!(Z3_mk_bvsdiv, a, d),
            K::SRem(a, d) => b!(Z3_mk_bvsrem, a, d),
            K::Shl(a, d) => b!(Z3_mk_bvshl, a, d),
            K::LShr(a, d) => b!(Z3_mk_bvlshr, a, d),
            K::AShr(a, d) => b!(Z3_mk_bvashr, a, d),
            K::Concat(a, d) => b!(Z3_mk_concat, a, d),
            K::Ite(q, a, d) => {
                let q = self.blx(x, q);
                let (a, d) = (self.bvx(x, a), self.bvx(x, d));
                unsafe { Z3_mk_ite(c, q, a, d) }
            }
            K::Extract(a, lo) => { let p = self.bvx(x, a); unsafe { Z3_mk_extract(c, lo as c_uint + n.w as c_uint - 1, lo as c_uint, p) } }
            K::ZExt(a) => { let p = self.bvx(x, a); let k = n.w - x.w(a); unsafe { Z3_mk_zero_ext(c, k as c_uint, p) } }
            K::SExt(a) => { let p = self.bvx(x, a); let k = n.w - x.w(a); unsafe { Z3_mk_sign_ext(c, k as c_uint, p) } }
        };
        self.keep(p);
        self.bv.insert(e, p);
        p
    }
    /// width-1 expression as a Boolean
    fn blx(&mut self, x: &Ex, e: E) -> P {
        if let Some(&p) = self.bl.get(&e) { return p; }
        let c = self.c;
        let n = &x.nodes[e as usize];
        macro_rules! b { ($f:ident, $a:expr, $b:expr) => {{ let p = self.bvx(x, $a); let q = self.bvx(x, $b); unsafe { $f(c, p, q) } }}; }
        let p = match n.k {
            K::Const(1) => unsafe { Z3_mk_true(c) },
            K::Const(_) => unsafe { Z3_mk_false(c) },
            K::Eq(a, d) => b!(Z3_mk_eq, a, d),
            K::Ult(a, d) => b!(Z3_mk_bvult, a, d),
            K::Ule(a, d) => b!(Z3_mk_bvule, a, d),
            K::Slt(a, d) => b!(Z3_mk_bvslt, a, d),
            K::Sle(a, d) => b!(Z3_mk_bvsle, a, d),
            K::Not(a) => { let p = self.blx(x, a); unsafe { Z3_mk_not(c, p) } }
            K::And(a, d) => { let v = [self.blx(x, a), self.blx(x, d)]; unsafe { Z3_mk_and(c, 2, v.as_ptr()) } }
            K::Or(a, d) => { let v = [self.blx(x, a), self.blx(x, d)]; unsafe { Z3_mk_or(c, 2, v.as_ptr()) } }
            K::Xor(a, d) => { let (p, q) = (self.blx(x, a), self.blx(x, d)); unsafe { Z3_mk_xor(c, p, q) } }
            K::Ite(q, a, d) => { let (q, a, d) = (self.blx(x, q), self.blx(x, a), self.blx(x, d)); unsafe { Z3_mk_ite(c, q, a, d) } }
            _ => {
                let p = self.bvx(x, e);
                let o = self.num(1, 1);
                self.keep(o);
                unsafe { Z3_mk_eq(c, p, o) }
            }
        };
        self.keep(p);
        self.bl.insert(e, p);
        p
    }
    /// start a fresh path condition
    pub fn reset(&mut self) { self.defined = 0; unsafe { Z3_solver_reset(self.c, self.s); } }
    fn lit(&mut self, x: &Ex, e: E) -> P {
        let p = self.blx(x, e);
        if let Some(&l) = self.lits.get(&e) { return l.0; }
        let (c, l) = (self.c, unsafe {
            let nm = CString::new(format!("d{e}")).unwrap();
            let b = Z3_mk_bool_sort(self.c);
            Z3_mk_const(self.c, Z3_mk_string_symbol(self.c, nm.as_ptr()), b)
        });
        self.keep(l);
        let n = self.keep(unsafe { Z3_mk_not(c, l) });
        let q = self.keep(unsafe { Z3_mk_eq(c, l, p) });
        self.lits.insert(e, (l, n, q));
        l
    }
    pub fn assert(&mut self, x: &Ex, e: E) {
        match self.lits.get(&e) {
            Some(&(l, _, q)) if self.defined == e => unsafe { Z3_solver_assert(self.c, self.s, l); let _ = q; },
            _ => { let p = self.blx(x, e); unsafe { Z3_solver_assert(self.c, self.s, p) } }
        }
    }
    /// Is the current path condition together with NOT e satisfiable?
    pub fn check_neg(&mut self, x: &Ex, e: E, want: &[(u32, E)], out: &mut Vec<(u32, u8)>) -> Res {
        unsafe {
            self.lit(x, e);
            let (_, n, q) = self.lits[&e];
            Z3_solver_assert(self.c, self.s, q);
            self.defined = e;
            match Z3_solver_check_assumptions(self.c, self.s, 1, &n) {
                1 => {
                    let m = Z3_solver_get_model(self.c, self.s);
                    Z3_model_inc_ref(self.c, m);
                    out.clear();
                    for &(v, ve) in want {
                        let t = self.bvx(x, ve);
                        let mut r: P = std::ptr::null_mut();
                        if !Z3_model_eval(self.c, m, t, true, &mut r) { return Res::Unknown; }
                        Z3_inc_ref(self.c, r);
                        let mut n = 0u64;
                        let ok = Z3_get_numeral_uint64(self.c, r, &mut n);
                        Z3_dec_ref(self.c, r);
                        if !ok { return Res::Unknown; }
                        out.push((v, n as u8));
                    }
                    Z3_model_dec_ref(self.c, m);
                    Res::Sat
                }
                -1 => Res::Unsat,
                _ => Res::Unknown,
            }
        }
    }
}
impl Drop for Z3 { fn drop(&mut self) { unsafe { Z3_del_context(self.c) } } }
