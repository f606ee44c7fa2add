//! Minimal binding to libz3 (loaded at run time) and translation of expressions.
use crate::expr::*;
use std::ffi::{c_char, c_int, c_uint, c_void, CString};
use std::sync::OnceLock;

type P = *mut c_void;

extern "C" {
    fn dlopen(p: *const c_char, flags: c_int) -> P;
    fn dlsym(h: P, s: *const c_char) -> P;
}

macro_rules! table {
    ($( $name:ident : fn($($a:ty),*) $(-> $r:ty)? ;)*) => {
        #[allow(non_snake_case)]
        pub struct Z3Lib { $( pub $name: unsafe extern "C" fn($($a),*) $(-> $r)?, )* pub path: String }
        impl Z3Lib {
            fn load(h: P, path: String) -> Z3Lib {
                unsafe { Z3Lib { $( $name: {
                    let c = CString::new(stringify!($name)).unwrap();
                    let p = dlsym(h, c.as_ptr());
                    assert!(!p.is_null(), "libz3 lacks {}", stringify!($name));
                    std::mem::transmute::<P, unsafe extern "C" fn($($a),*) $(-> $r)?>(p)
                }, )* path } }
            }
        }
    };
}
table! {
    Z3_mk_config: fn() -> P;
    Z3_del_config: fn(P);
    Z3_set_param_value: fn(P, *const c_char, *const c_char);
    Z3_mk_context: fn(P) -> P;
    Z3_del_context: fn(P);
    Z3_get_version: fn(*mut c_uint, *mut c_uint, *mut c_uint, *mut c_uint);
    Z3_set_error_handler: fn(P, Option<unsafe extern "C" fn(P, c_int)>);
    Z3_get_error_msg: fn(P, c_int) -> *const c_char;
    Z3_mk_string_symbol: fn(P, *const c_char) -> P;
    Z3_mk_bv_sort: fn(P, c_uint) -> P;
    Z3_mk_const: fn(P, P, P) -> P;
    Z3_mk_numeral: fn(P, *const c_char, P) -> P;
    Z3_mk_unsigned_int64: fn(P, u64, P) -> P;
    Z3_mk_true: fn(P) -> P;
    Z3_mk_false: fn(P) -> P;
    Z3_mk_not: fn(P, P) -> P;
    Z3_mk_eq: fn(P, P, P) -> P;
    Z3_mk_ite: fn(P, P, P, P) -> P;
    Z3_mk_xor: fn(P, P, P) -> P;
    Z3_mk_and: fn(P, c_uint, *const P) -> P;
    Z3_mk_or: fn(P, c_uint, *const P) -> P;
    Z3_mk_bvadd: fn(P, P, P) -> P;
    Z3_mk_bvsub: fn(P, P, P) -> P;
    Z3_mk_bvmul: fn(P, P, P) -> P;
    Z3_mk_bvudiv: fn(P, P, P) -> P;
    Z3_mk_bvurem: fn(P, P, P) -> P;
    Z3_mk_bvsdiv: fn(P, P, P) -> P;
    Z3_mk_bvsrem: fn(P, P, P) -> P;
    Z3_mk_bvshl: fn(P, P, P) -> P;
    Z3_mk_bvlshr: fn(P, P, P) -> P;
    Z3_mk_bvashr: fn(P, P, P) -> P;
    Z3_mk_bvand: fn(P, P, P) -> P;
    Z3_mk_bvor: fn(P, P, P) -> P;
    Z3_mk_bvxor: fn(P, P, P) -> P;
    Z3_mk_concat: fn(P, P, P) -> P;
    Z3_mk_extract: fn(P, c_uint, c_uint, P) -> P;
    Z3_mk_zero_ext: fn(P, c_uint, P) -> P;
    Z3_mk_sign_ext: fn(P, c_uint, P) -> P;
    Z3_mk_bvult: fn(P, P, P) -> P;
    Z3_mk_bvule: fn(P, P, P) -> P;
    Z3_mk_bvslt: fn(P, P, P) -> P;
    Z3_mk_bvsle: fn(P, P, P) -> P;
    Z3_mk_fpa_sort_32: fn(P) -> P;
    Z3_mk_fpa_sort_64: fn(P) -> P;
    Z3_mk_fpa_rne: fn(P) -> P;
    Z3_mk_fpa_rtz: fn(P) -> P;
    Z3_mk_fpa_rtn: fn(P) -> P;
    Z3_mk_fpa_rtp: fn(P) -> P;
    Z3_mk_fpa_rna: fn(P) -> P;
    Z3_mk_fpa_round_to_integral: fn(P, P, P) -> P;
    Z3_mk_fpa_to_fp_bv: fn(P, P, P) -> P;
    Z3_mk_fpa_to_ieee_bv: fn(P, P) -> P;
    Z3_mk_fpa_add: fn(P, P, P, P) -> P;
    Z3_mk_fpa_sub: fn(P, P, P, P) -> P;
    Z3_mk_fpa_mul: fn(P, P, P, P) -> P;
    Z3_mk_fpa_div: fn(P, P, P, P) -> P;
    Z3_mk_fpa_eq: fn(P, P, P) -> P;
    Z3_mk_fpa_lt: fn(P, P, P) -> P;
    Z3_mk_fpa_leq: fn(P, P, P) -> P;
    Z3_mk_fpa_is_nan: fn(P, P) -> P;
    Z3_mk_fpa_to_fp_float: fn(P, P, P, P) -> P;
    Z3_mk_fpa_to_fp_signed: fn(P, P, P, P) -> P;
    Z3_mk_fpa_to_fp_unsigned: fn(P, P, P, P) -> P;
    Z3_mk_fpa_to_sbv: fn(P, P, P, c_uint) -> P;
    Z3_mk_fpa_to_ubv: fn(P, P, P, c_uint) -> P;
    Z3_mk_solver: fn(P) -> P;
    Z3_mk_simple_solver: fn(P) -> P;
    Z3_mk_solver_for_logic: fn(P, P) -> P;
    Z3_solver_inc_ref: fn(P, P);
    Z3_solver_dec_ref: fn(P, P);
    Z3_solver_assert: fn(P, P, P);
    Z3_solver_push: fn(P, P);
    Z3_solver_pop: fn(P, P, c_uint);
    Z3_solver_reset: fn(P, P);
    Z3_solver_check: fn(P, P) -> c_int;
    Z3_solver_get_model: fn(P, P) -> P;
    Z3_model_inc_ref: fn(P, P);
    Z3_model_dec_ref: fn(P, P);
    Z3_model_eval: fn(P, P, P, bool, *mut P) -> bool;
    Z3_get_numeral_uint64: fn(P, P, *mut u64) -> bool;
    Z3_mk_params: fn(P) -> P;
    Z3_params_inc_ref: fn(P, P);
    Z3_params_set_uint: fn(P, P, P, c_uint);
    Z3_solver_set_params: fn(P, P, P);
    Z3_solver_to_string: fn(P, P) -> *const c_char;
}
unsafe impl Send for Z3Lib {}
unsafe impl Sync for Z3Lib {}

pub fn lib() -> &'static Z3Lib {
    static L: OnceLock<Z3Lib> = OnceLock::new();
    L.get_or_init(|| {
        let mut c = Vec::new();
        if let Ok(p) = std::env::var("SYMEX_LIBZ3") {
            c.push(p);
        }
        c.push("/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3/lib/libz3.so".into());
        c.push("/usr/lib/x86_64-linux-gnu/libz3.so.4".into());
        c.push("libz3.so".into());
        for p in c {
            let s = CString::new(p.clone()).unwrap();
            let h = unsafe { dlopen(s.as_ptr(), 2) };
            if !h.is_null() {
                return Z3Lib::load(h, p);
            }
        }
        panic!("cannot load libz3");
    })
}
pub fn version() -> String {
    let (mut a, mut b, mut c, mut d) = (0, 0, 0, 0);
    unsafe { (lib().Z3_get_version)(&mut a, &mut b, &mut c, &mut d) };
    format!("{}.{}.{} ({})", a, b, c, lib().path)
}

#[derive(Debug, PartialEq, Clone, Copy)]
pub enum Res {
    Sat,
    Unsat,
    Unknown,
}

pub struct Z3 {
    ctx: P,
    solver: P,
    cache_v: Vec<P>, // translated bit-vector form
    cache_b: Vec<P>, // translated Bool form (width 1)
    vars: Vec<P>,
    pub queries: u64,
    pub time: f64,
    pub max_time: f64,
}
unsafe extern "C" fn on_err(c: P, e: c_int) {
    let m = (lib().Z3_get_error_msg)(c, e);
    eprintln!("z3 error {}: {}", e, std::ffi::CStr::from_ptr(m).to_string_lossy());
    std::process::exit(3);
}

impl Z3 {
    pub fn new(timeout_ms: u32) -> Z3 {
        let l = lib();
        unsafe {
            let cfg = (l.Z3_mk_config)();
            let ctx = (l.Z3_mk_context)(cfg);
            (l.Z3_del_config)(cfg);
            (l.Z3_set_error_handler)(ctx, Some(on_err));
            let kind = std::env::var("SYMEX_SOLVER").unwrap_or_else(|_| "simple".into());
            let solver = match kind.as_str() {
                "simple" => (l.Z3_mk_simple_solver)(ctx),
                "default" => (l.Z3_mk_solver)(ctx),
                lg => {
                    let s = CString::new(lg).unwrap();
                    let y = (l.Z3_mk_string_symbol)(ctx, s.as_ptr());
                    (l.Z3_mk_solver_for_logic)(ctx, y)
                }
            };
            (l.Z3_solver_inc_ref)(ctx, solver);
            let p = (l.Z3_mk_params)(ctx);
            (l.Z3_params_inc_ref)(ctx, p);
            let s = CString::new("timeout").unwrap();
            let y = (l.Z3_mk_string_symbol)(ctx, s.as_ptr());
            (l.Z3_params_set_uint)(ctx, p, y, timeout_ms);
            (l.Z3_solver_set_params)(ctx, solver, p);
            Z3 { ctx, solver, cache_v: vec![], cache_b: vec![], vars: vec![], queries: 0, time: 0.0, max_time: 0.0 }
        }
    }
    fn var(&mut self, i: usize) -> P {
        let l = lib();
        while self.vars.len() <= i {
            let s = CString::new(format!("v{}", self.vars.len())).unwrap();
            unsafe {
                let y = (l.Z3_mk_string_symbol)(self.ctx, s.as_ptr());
                let so = (l.Z3_mk_bv_sort)(self.ctx, 8);
                self.vars.push((l.Z3_mk_const)(self.ctx, y, so));
            }
        }
        self.vars[i]
    }
    fn num(&self, w: u16, v: u128) -> P {
        let l = lib();
        unsafe {
            let so = (l.Z3_mk_bv_sort)(self.ctx, w as c_uint);
            if w <= 64 {
                (l.Z3_mk_unsigned_int64)(self.ctx, v as u64, so)
            } else {
                let s = CString::new(v.to_string()).unwrap();
                (l.Z3_mk_numeral)(self.ctx, s.as_ptr(), so)
            }
        }
    }
    fn ensure(&mut self, e: E) {
        if self.cache_v.len() <= e as usize {
            self.cache_v.resize(e as usize + 1024, std::ptr::null_mut());
            self.cache_b.resize(e as usize + 1024, std::ptr::null_mut());
        }
    }
    fn tb(&mut self, ar: &Arena, e: E) -> P {
        self.ensure(e);
        let c = self.cache_b[e as usize];
        if !c.is_null() {
            return c;
        }
        let l = lib();
        let n = &ar.n[e as usize];
        debug_assert_eq!(n.w, 1);
        let x = self.ctx;
        let r = unsafe {
            match n.op {
                Op::Const => {
                    if n.k != 0 {
                        (l.Z3_mk_true)(x)
                    } else {
                        (l.Z3_mk_false)(x)
                    }
                }
                Op::And | Op::Or => {
                    let a = [self.tb(ar, n.a), self.tb(ar, n.b)];
                    if n.op == Op::And {
                        (l.Z3_mk_and)(x, 2, a.as_ptr())
                    } else {
                        (l.Z3_mk_or)(x, 2, a.as_ptr())
                    }
                }
                Op::Xor => {
                    let a = self.tb(ar, n.a);
                    if n.b == 1 {
                        (l.Z3_mk_not)(x, a)
                    } else {
                        let b = self.tb(ar, n.b);
                        (l.Z3_mk_xor)(x, a, b)
                    }
                }
                Op::Ite => {
                    let (a, b, c) = (self.tb(ar, n.a), self.tb(ar, n.b), self.tb(ar, n.c));
                    (l.Z3_mk_ite)(x, a, b, c)
                }
                Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle => {
                    let (a, b) = (self.tv(ar, n.a), self.tv(ar, n.b));
                    match n.op {
                        Op::Eq => (l.Z3_mk_eq)(x, a, b),
                        Op::Ult => (l.Z3_mk_bvult)(x, a, b),
                        Op::Ule => (l.Z3_mk_bvule)(x, a, b),
                        Op::Slt => (l.Z3_mk_bvslt)(x, a, b),
                        _ => (l.Z3_mk_bvsle)(x, a, b),
                    }
                }
                Op::FOeq | Op::FOlt | Op::FOle | Op::FUno => {
                    let (a, b) = (self.tf(ar, n.a), self.tf(ar, n.b));
                    match n.op {
                        Op::FOeq => (l.Z3_mk_fpa_eq)(x, a, b),
                        Op::FOlt => (l.Z3_mk_fpa_lt)(x, a, b),
                        Op::FOle => (l.Z3_mk_fpa_leq)(x, a, b),
                        _ => {
                            let q = [(l.Z3_mk_fpa_is_nan)(x, a), (l.Z3_mk_fpa_is_nan)(x, b)];
                            (l.Z3_mk_or)(x, 2, q.as_ptr())
                        }
                    }
                }
                _ => {
                    let v = self.tv_raw(ar, e);
                    let one = self.num(1, 1);
                    (l.Z3_mk_eq)(x, v, one)
                }
            }
        };
        self.cache_b[e as usize] = r;
        r
    }
    /// floating point view of a bit pattern
    fn tf(&mut self, ar: &Arena, e: E) -> P {
        let l = lib();
        let w = ar.w(e);
        let v = self.tv(ar, e);
        unsafe {
            let so = if w == 32 { (l.Z3_mk_fpa_sort_32)(self.ctx) } else { (l.Z3_mk_fpa_sort_64)(self.ctx) };
            (l.Z3_mk_fpa_to_fp_bv)(self.ctx, v, so)
        }
    }
    fn tv(&mut self, ar: &Arena, e: E) -> P {
        self.ensure(e);
        let c = self.cache_v[e as usize];
        if !c.is_null() {
            return c;
        }
        let l = lib();
        let n = &ar.n[e as usize];
        let r = if n.w == 1 && !matches!(n.op, Op::Extract | Op::Const) {
            let b = self.tb(ar, e);
            let (o, z) = (self.num(1, 1), self.num(1, 0));
            unsafe { (l.Z3_mk_ite)(self.ctx, b, o, z) }
        } else {
            self.tv_raw(ar, e)
        };
        self.cache_v[e as usize] = r;
        r
    }
    fn tv_raw(&mut self, ar: &Arena, e: E) -> P {
        let l = lib();
        let n = &ar.n[e as usize];
        let x = self.ctx;
        unsafe {
            match n.op {
                Op::Const => self.num(n.w, n.k),
                Op::Var => self.var(n.k as usize),
                Op::Extract => {
                    let a = self.tv(ar, n.a);
                    (l.Z3_mk_extract)(x, (n.k as u32) + n.w as u32 - 1, n.k as u32, a)
                }
                Op::Rng => self.tv(ar, n.a),
                Op::ZExt => {
                    let a = self.tv(ar, n.a);
                    (l.Z3_mk_zero_ext)(x, (n.w - ar.w(n.a)) as u32, a)
                }
                Op::SExt => {
                    let a = self.tv(ar, n.a);
                    (l.Z3_mk_sign_ext)(x, (n.w - ar.w(n.a)) as u32, a)
                }
                Op::Ite => {
                    let c = self.tb(ar, n.a);
                    let (a, b) = (self.tv(ar, n.b), self.tv(ar, n.c));
                    (l.Z3_mk_ite)(x, c, a, b)
                }
                Op::FAdd | Op::FSub | Op::FMul | Op::FDiv => {
                    let (a, b) = (self.tf(ar, n.a), self.tf(ar, n.b));
                    let rm = (l.Z3_mk_fpa_rne)(x);
                    let r = match n.op {
                        Op::FAdd => (l.Z3_mk_fpa_add)(x, rm, a, b),
                        Op::FSub => (l.Z3_mk_fpa_sub)(x, rm, a, b),
                        Op::FMul => (l.Z3_mk_fpa_mul)(x, rm, a, b),
                        _ => (l.Z3_mk_fpa_div)(x, rm, a, b),
                    };
                    (l.Z3_mk_fpa_to_ieee_bv)(x, r)
                }
                Op::FConv | Op::SToF | Op::UToF => {
                    let so = if n.w == 32 { (l.Z3_mk_fpa_sort_32)(x) } else { (l.Z3_mk_fpa_sort_64)(x) };
                    let rm = (l.Z3_mk_fpa_rne)(x);
                    let r = match n.op {
                        Op::FConv => {
                            let a = self.tf(ar, n.a);
                            (l.Z3_mk_fpa_to_fp_float)(x, rm, a, so)
                        }
                        Op::SToF => {
                            let a = self.tv(ar, n.a);
                            (l.Z3_mk_fpa_to_fp_signed)(x, rm, a, so)
                        }
                        _ => {
                            let a = self.tv(ar, n.a);
                            (l.Z3_mk_fpa_to_fp_unsigned)(x, rm, a, so)
                        }
                    };
                    (l.Z3_mk_fpa_to_ieee_bv)(x, r)
                }
                Op::FRnd => {
                    let a = self.tf(ar, n.a);
                    let rm = match n.k {
                        0 => (l.Z3_mk_fpa_rtz)(x),
                        1 => (l.Z3_mk_fpa_rtn)(x),
                        2 => (l.Z3_mk_fpa_rtp)(x),
                        3 => (l.Z3_mk_fpa_rne)(x),
                        _ => (l.Z3_mk_fpa_rna)(x),
                    };
                    (l.Z3_mk_fpa_to_ieee_bv)(x, (l.Z3_mk_fpa_round_to_integral)(x, rm, a))
                }
                Op::FToS | Op::FToU => {
                    // only reached for in-range values: by the code's own guards, or those of the saturating form
                    let a = self.tf(ar, n.a);
                    let rm = (l.Z3_mk_fpa_rtz)(x);
                    if n.op == Op::FToS {
                        (l.Z3_mk_fpa_to_sbv)(x, rm, a, n.w as u32)
                    } else {
                        (l.Z3_mk_fpa_to_ubv)(x, rm, a, n.w as u32)
                    }
                }
                op => {
                    let (a, b) = (self.tv(ar, n.a), self.tv(ar, n.b));
                    let f = match op {
                        Op::Add => l.Z3_mk_bvadd,
                        Op::Sub => l.Z3_mk_bvsub,
                        Op::Mul => l.Z3_mk_bvmul,
                        Op::UDiv => l.Z3_mk_bvudiv,
                        Op::URem => l.Z3_mk_bvurem,
                        Op::SDiv => l.Z3_mk_bvsdiv,
                        Op::SRem => l.Z3_mk_bvsrem,
                        Op::Shl => l.Z3_mk_bvshl,
                        Op::LShr => l.Z3_mk_bvlshr,
                        Op::AShr => l.Z3_mk_bvashr,
                        Op::And => l.Z3_mk_bvand,
                        Op::Or => l.Z3_mk_bvor,
                        Op::Xor => l.Z3_mk_bvxor,
                        Op::Concat => l.Z3_mk_concat,
                        o => panic!("z3 translation of {:?} w={}", o, n.w),
                    };
                    f(x, a, b)
                }
            }
        }
    }

    /// Check satisfiability of the conjunction of `cs` plus byte-domain constraints `doms`.
    /// On Sat, fills the values of `vars` into `out`.
    pub fn check(&mut self, ar: &Arena, cs: &[E], doms: &[(u16, [u64; 4])], vars: &[u16], out: &mut Vec<(u16, u8)>) -> Res {
        let l = lib();
        let t0 = std::time::Instant::now();
        unsafe {
            (l.Z3_solver_push)(self.ctx, self.solver);
            for &(v, d) in doms {
                if d == [u64::MAX; 4] {
                    continue;
                }
                let zv = self.var(v as usize);
                let mut parts: Vec<P> = vec![];
                let inset = |x: usize| d[x >> 6] >> (x & 63) & 1 == 1;
                let mut i = 0;
                while i < 256 {
                    if !inset(i) {
                        i += 1;
                        continue;
                    }
                    let s = i;
                    while i < 256 && inset(i) {
                        i += 1;
                    }
                    let t = i - 1;
                    let p = if s == t {
                        let k = self.num(8, s as u128);
                        (l.Z3_mk_eq)(self.ctx, zv, k)
                    } else {
                        let (a, b) = (self.num(8, s as u128), self.num(8, t as u128));
                        let q = [(l.Z3_mk_bvule)(self.ctx, a, zv), (l.Z3_mk_bvule)(self.ctx, zv, b)];
                        (l.Z3_mk_and)(self.ctx, 2, q.as_ptr())
                    };
                    parts.push(p);
                }
                let f = if parts.is_empty() {
                    (l.Z3_mk_false)(self.ctx)
                } else if parts.len() == 1 {
                    parts[0]
                } else {
                    (l.Z3_mk_or)(self.ctx, parts.len() as u32, parts.as_ptr())
                };
                (l.Z3_solver_assert)(self.ctx, self.solver, f);
            }
            for &c in cs {
                let t = self.tb(ar, c);
                (l.Z3_solver_assert)(self.ctx, self.solver, t);
            }
            let r = (l.Z3_solver_check)(self.ctx, self.solver);
            let res = match r {
                1 => {
                    let m = (l.Z3_solver_get_model)(self.ctx, self.solver);
                    (l.Z3_model_inc_ref)(self.ctx, m);
                    for &v in vars {
                        let mut o: P = std::ptr::null_mut();
                        let zv = self.var(v as usize);
                        let ok = (l.Z3_model_eval)(self.ctx, m, zv, true, &mut o);
                        assert!(ok);
                        let mut x = 0u64;
                        (l.Z3_get_numeral_uint64)(self.ctx, o, &mut x);
                        out.push((v, x as u8));
                    }
                    (l.Z3_model_dec_ref)(self.ctx, m);
                    Res::Sat
                }
                -1 => Res::Unsat,
                _ => Res::Unknown,
            };
            if std::env::var_os("SYMEX_DUMPSLOW").is_some() && t0.elapsed().as_secs_f64() > 2.0 {
                let s = (l.Z3_solver_to_string)(self.ctx, self.solver);
                eprintln!("SLOW {:?} {}s\n{}", res, t0.elapsed().as_secs_f64(), std::ffi::CStr::from_ptr(s).to_string_lossy());
            }
            (l.Z3_solver_pop)(self.ctx, self.solver, 1);
            let dt = t0.elapsed().as_secs_f64();
            self.queries += 1;
            self.time += dt;
            if dt > self.max_time {
                self.max_time = dt;
            }
            res
        }
    }
}
impl Drop for Z3 {
    fn drop(&mut self) {
        let l = lib();
        unsafe {
            (l.Z3_solver_dec_ref)(self.ctx, self.solver);
            (l.Z3_del_context)(self.ctx);
        }
    }
}
