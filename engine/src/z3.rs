//! Z3 through its C API (loaded at run time, so the engine builds without it).
use crate::term::*;
use std::collections::{HashMap, HashSet};
use std::ffi::{c_char, c_int, c_uint, c_void, CString};
use std::time::Instant;

type P = *mut c_void;
extern "C" {
    fn dlopen(f: *const c_char, flags: c_int) -> P;
    fn dlsym(h: P, s: *const c_char) -> P;
}

macro_rules! api {
    ($($name:ident : fn($($a:ty),*) -> $r:ty;)*) => {
        #[allow(non_snake_case)]
        struct Api { $($name: unsafe extern "C" fn($($a),*) -> $r,)* }
        impl Api {
            unsafe fn load(h: P) -> Api {
                Api { $($name: {
                    let s = CString::new(stringify!($name)).unwrap();
                    let p = dlsym(h, s.as_ptr());
                    if p.is_null() { panic!("libz3 lacks {}", stringify!($name)); }
                    std::mem::transmute::<P, unsafe extern "C" fn($($a),*) -> $r>(p)
                },)* }
            }
        }
    };
}
api! {
    Z3_mk_config: fn() -> P;
    Z3_set_param_value: fn(P, *const c_char, *const c_char) -> ();
    Z3_mk_context: fn(P) -> P;
    Z3_set_error_handler: fn(P, P) -> ();
    Z3_mk_string_symbol: fn(P, *const c_char) -> P;
    Z3_mk_bv_sort: fn(P, c_uint) -> P;
    Z3_mk_const: fn(P, P, P) -> P;
    Z3_mk_unsigned_int64: fn(P, u64, P) -> P;
    Z3_mk_bool_sort: fn(P) -> P;
    Z3_get_bool_value: fn(P, P) -> c_int;
    Z3_mk_true: fn(P) -> P;
    Z3_mk_false: fn(P) -> P;
    Z3_mk_not: fn(P, P) -> P;
    Z3_mk_eq: fn(P, P, P) -> P;
    Z3_mk_ite: fn(P, P, P, P) -> P;
    Z3_mk_and: fn(P, c_uint, *const P) -> P;
    Z3_mk_or: fn(P, c_uint, *const P) -> P;
    Z3_mk_xor: fn(P, P, P) -> P;
    Z3_mk_bvadd: fn(P, P, P) -> P;
    Z3_mk_bvmul: fn(P, P, P) -> P;
    Z3_mk_bvudiv: fn(P, P, P) -> P;
    Z3_mk_bvurem: fn(P, P, P) -> P;
    Z3_mk_bvsdiv: fn(P, P, P) -> P;
    Z3_mk_bvsrem: fn(P, P, P) -> P;
    Z3_mk_bvand: fn(P, P, P) -> P;
    Z3_mk_bvor: fn(P, P, P) -> P;
    Z3_mk_bvxor: fn(P, P, P) -> P;
    Z3_mk_bvshl: fn(P, P, P) -> P;
    Z3_mk_bvlshr: fn(P, P, P) -> P;
    Z3_mk_bvashr: fn(P, P, P) -> P;
    Z3_mk_bvult: fn(P, P, P) -> P;
    Z3_mk_bvule: fn(P, P, P) -> P;
    Z3_mk_bvslt: fn(P, P, P) -> P;
    Z3_mk_bvsle: fn(P, P, P) -> P;
    Z3_mk_extract: fn(P, c_uint, c_uint, P) -> P;
    Z3_mk_concat: fn(P, P, P) -> P;
    Z3_mk_zero_ext: fn(P, c_uint, P) -> P;
    Z3_mk_sign_ext: fn(P, c_uint, P) -> P;
    Z3_mk_fpa_sort_32: fn(P) -> P;
    Z3_mk_fpa_sort_64: fn(P) -> P;
    Z3_mk_fpa_rne: fn(P) -> P;
    Z3_mk_fpa_rtz: fn(P) -> P;
    Z3_mk_fpa_rtn: fn(P) -> P;
    Z3_mk_fpa_rtp: fn(P) -> P;
    Z3_mk_fpa_rna: fn(P) -> P;
    Z3_mk_fpa_add: fn(P, P, P, P) -> P;
    Z3_mk_fpa_sub: fn(P, P, P, P) -> P;
    Z3_mk_fpa_mul: fn(P, P, P, P) -> P;
    Z3_mk_fpa_div: fn(P, P, P, P) -> P;
    Z3_mk_fpa_sqrt: fn(P, P, P) -> P;
    Z3_mk_fpa_lt: fn(P, P, P) -> P;
    Z3_mk_fpa_leq: fn(P, P, P) -> P;
    Z3_mk_fpa_eq: fn(P, P, P) -> P;
    Z3_mk_fpa_is_nan: fn(P, P) -> P;
    Z3_mk_fpa_neg: fn(P, P) -> P;
    Z3_mk_fpa_abs: fn(P, P) -> P;
    Z3_mk_fpa_to_fp_bv: fn(P, P, P) -> P;
    Z3_mk_fpa_to_fp_float: fn(P, P, P, P) -> P;
    Z3_mk_fpa_to_fp_signed: fn(P, P, P, P) -> P;
    Z3_mk_fpa_to_fp_unsigned: fn(P, P, P, P) -> P;
    Z3_mk_fpa_to_sbv: fn(P, P, P, c_uint) -> P;
    Z3_mk_fpa_to_ubv: fn(P, P, P, c_uint) -> P;
    Z3_mk_fpa_to_ieee_bv: fn(P, P) -> P;
    Z3_mk_fpa_round_to_integral: fn(P, P, P) -> P;
    Z3_mk_simple_solver: fn(P) -> P;
    Z3_mk_solver_from_tactic: fn(P, P) -> P;
    Z3_mk_tactic: fn(P, *const c_char) -> P;
    Z3_tactic_inc_ref: fn(P, P) -> ();
    Z3_tactic_and_then: fn(P, P, P) -> P;
    Z3_solver_inc_ref: fn(P, P) -> ();
    Z3_solver_assert: fn(P, P, P) -> ();
    Z3_solver_check: fn(P, P) -> c_int;
    Z3_solver_get_model: fn(P, P) -> P;
    Z3_solver_reset: fn(P, P) -> ();
    Z3_solver_set_params: fn(P, P, P) -> ();
    Z3_solver_to_string: fn(P, P) -> *const c_char;
    Z3_mk_params: fn(P) -> P;
    Z3_params_inc_ref: fn(P, P) -> ();
    Z3_params_set_uint: fn(P, P, P, c_uint) -> ();
    Z3_model_inc_ref: fn(P, P) -> ();
    Z3_model_dec_ref: fn(P, P) -> ();
    Z3_model_eval: fn(P, P, P, bool, *mut P) -> bool;
    Z3_get_numeral_uint64: fn(P, P, *mut u64) -> bool;
    Z3_get_numeral_int64: fn(P, P, *mut i64) -> bool;
    Z3_mk_int_sort: fn(P) -> P;
    Z3_mk_real_sort: fn(P) -> P;
    Z3_mk_numeral: fn(P, *const c_char, P) -> P;
    Z3_mk_int64: fn(P, i64, P) -> P;
    Z3_mk_add: fn(P, c_uint, *const P) -> P;
    Z3_mk_mul: fn(P, c_uint, *const P) -> P;
    Z3_mk_le: fn(P, P, P) -> P;
    Z3_mk_lt: fn(P, P, P) -> P;
    Z3_get_full_version: fn() -> *const c_char;
}

extern "C" fn on_error(_c: P, code: c_int) {
    eprintln!("z3 error code {}", code);
}

#[derive(Debug)]
pub enum Res {
    Sat(Model),
    Unsat,
    Unknown,
}

pub struct Z3 {
    a: Api,
    c: P,
    s_bv: P,
    s_fp: P,
    /// linear integer arithmetic
    s_li: P,
    ints: HashMap<E, Option<(P, i128, i128)>>,
    ibool: HashMap<E, Option<P>>,
    ivar: HashMap<u32, P>,
    atl: HashMap<E, Option<(P, P)>>,
    sides: HashMap<E, P>,
    points: HashMap<E, Vec<(Vec<(u32, u64)>, bool)>>,
    pub n_li: u64,
    bv: Vec<P>,
    fp: Vec<P>,
    bo: Vec<P>,
    libm: HashMap<E, P>,
    lemmas: HashMap<E, Vec<P>>,
    /// comparisons of inexact floating-point results, standing for themselves
    /// as free propositions until the solver needs more about them
    heavy: Vec<u8>,
    absb: HashMap<E, P>,
    exb: HashMap<E, P>,
    exact: HashSet<E>,
    pub queries: u64,
    pub n_sat: u64,
    pub n_unsat: u64,
    pub n_unknown: u64,
    pub secs: f64,
    pub max_ms: u64,
    pub timeout_ms: u32,
    /// a branch is being decided: giving up early costs another path only
    pub quick: bool,
    cur_timeout: u32,
    pub version: String,
    pub dump: Option<String>,
}

pub fn open(path: &str) -> Z3 {
    unsafe {
        let s = CString::new(path).unwrap();
        let h = dlopen(s.as_ptr(), 2);
        if h.is_null() {
            eprintln!("cannot load {}", path);
            std::process::exit(3);
        }
        let a = Api::load(h);
        let cfg = (a.Z3_mk_config)();
        let c = (a.Z3_mk_context)(cfg);
        (a.Z3_set_error_handler)(c, on_error as P);
        let tac = |n: &str| {
            let s = CString::new(n).unwrap();
            let t = (a.Z3_mk_tactic)(c, s.as_ptr());
            (a.Z3_tactic_inc_ref)(c, t);
            t
        };
        let seq = |names: &[&str]| {
            let mut t = tac(names[0]);
            for n in &names[1..] {
                t = (a.Z3_tactic_and_then)(c, t, tac(n));
                (a.Z3_tactic_inc_ref)(c, t);
            }
            t
        };
        let t_bv = seq(&["simplify", "propagate-values", "solve-eqs", "elim-uncnstr", "simplify", "bit-blast", "simplify", "sat"]);
        let s_bv = (a.Z3_mk_solver_from_tactic)(c, t_bv);
        (a.Z3_solver_inc_ref)(c, s_bv);
        let t_fp = seq(&["simplify", "propagate-values", "fpa2bv", "propagate-values", "simplify", "solve-eqs", "ackermannize_bv", "simplify", "bit-blast", "simplify", "sat"]);
        let s_fp = (a.Z3_mk_solver_from_tactic)(c, t_fp);
        (a.Z3_solver_inc_ref)(c, s_fp);
        let s_li = (a.Z3_mk_simple_solver)(c);
        (a.Z3_solver_inc_ref)(c, s_li);
        let version = std::ffi::CStr::from_ptr((a.Z3_get_full_version)()).to_string_lossy().into_owned();
        Z3 {
            a,
            c,
            s_bv,
            s_fp,
            s_li,
            ints: HashMap::new(),
            ibool: HashMap::new(),
            ivar: HashMap::new(),
            atl: HashMap::new(),
            sides: HashMap::new(),
            points: HashMap::new(),
            n_li: 0,
            bv: Vec::new(),
            fp: Vec::new(),
            bo: Vec::new(),
            libm: HashMap::new(),
            lemmas: HashMap::new(),
            heavy: Vec::new(),
            absb: HashMap::new(),
            exb: HashMap::new(),
            exact: HashSet::new(),
            queries: 0,
            n_sat: 0,
            n_unsat: 0,
            n_unknown: 0,
            secs: 0.0,
            max_ms: 0,
            timeout_ms: 20000,
            quick: true,
            cur_timeout: 0,
            version,
            dump: std::env::var("QS_DUMP").ok(),
        }
    }
}

const NUL: P = std::ptr::null_mut();

impl Z3 {
    fn num(&self, v: u64, w: u16) -> P {
        unsafe { (self.a.Z3_mk_unsigned_int64)(self.c, v, (self.a.Z3_mk_bv_sort)(self.c, w as c_uint)) }
    }
    fn fsort(&self, w: u16) -> P {
        unsafe {
            if w == 32 {
                (self.a.Z3_mk_fpa_sort_32)(self.c)
            } else {
                (self.a.Z3_mk_fpa_sort_64)(self.c)
            }
        }
    }
    fn grow(&mut self) {
        let n = t().nodes.len();
        if self.bv.len() < n {
            self.bv.resize(n, NUL);
            self.fp.resize(n, NUL);
            self.bo.resize(n, NUL);
        }
    }
    /// translate all subterms bottom-up so that recursion stays shallow
    fn prep(&mut self, e: E) {
        self.grow();
        let mut stack = vec![e];
        let mut seen = HashSet::new();
        let mut order = Vec::new();
        while let Some(x) = stack.pop() {
            if self.bv[x as usize] != NUL || self.bo[x as usize] != NUL || self.fp[x as usize] != NUL || !seen.insert(x) {
                continue;
            }
            order.push(x);
            if self.abstracted(x) {
                continue;
            }
            let n = t().n(x);
            for k in [n.a, n.b, n.c] {
                if k != NONE {
                    stack.push(k);
                }
            }
        }
        order.sort_unstable();
        for x in order {
            let n = t().n(x);
            match n.op {
                Op::FAdd | Op::FSub | Op::FMul | Op::FDiv | Op::FSqrt | Op::FCvt | Op::Fx | Op::S2F | Op::U2F | Op::FRound => {
                    self.mfp(x);
                }
                Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle | Op::FLt | Op::FLe | Op::FEq | Op::FUno => {
                    self.mbool(x);
                }
                _ => {
                    if n.w == 1 {
                        self.mbool(x);
                    } else {
                        self.mbv(x);
                    }
                }
            }
        }
    }
    /// does the term contain floating-point arithmetic that rounds?
    fn is_heavy(&mut self, e: E) -> bool {
        let mut stack = vec![e];
        while let Some(&x) = stack.last() {
            if self.heavy.len() <= x as usize {
                self.heavy.resize(x as usize + 1024, 0);
            }
            if self.heavy[x as usize] != 0 {
                stack.pop();
                continue;
            }
            let n = t().n(x);
            let mut h = matches!(n.op, Op::FAdd | Op::FSub | Op::FMul | Op::FDiv | Op::FSqrt | Op::Libm);
            let mut ready = true;
            if !h {
                for k in [n.a, n.b, n.c] {
                    if k != NONE {
                        match self.heavy.get(k as usize).copied().unwrap_or(0) {
                            0 => {
                                ready = false;
                                stack.push(k);
                            }
                            2 => h = true,
                            _ => {}
                        }
                    }
                }
            }
            if ready || h {
                self.heavy[x as usize] = if h { 2 } else { 1 };
                while stack.last().map_or(false, |y| self.heavy.get(*y as usize).copied().unwrap_or(0) != 0) {
                    stack.pop();
                }
            }
        }
        self.heavy[e as usize] == 2
    }
    fn abstracted(&mut self, e: E) -> bool {
        let n = t().n(e);
        matches!(n.op, Op::FLt | Op::FLe | Op::FEq) && (self.is_heavy(n.a) || self.is_heavy(n.b))
    }
    fn mbool(&mut self, e: E) -> P {
        if self.bo[e as usize] != NUL {
            return self.bo[e as usize];
        }
        if self.abstracted(e) {
            let r = unsafe {
                let c = self.c;
                let nm = CString::new(format!("cmp!{}", e)).unwrap();
                let s = (self.a.Z3_mk_string_symbol)(c, nm.as_ptr());
                (self.a.Z3_mk_const)(c, s, (self.a.Z3_mk_bool_sort)(c))
            };
            self.absb.insert(e, r);
            self.bo[e as usize] = r;
            return r;
        }
        let r = self.mbool_def(e);
        self.bo[e as usize] = r;
        r
    }
    /// the comparison itself, bit by bit
    fn mexact(&mut self, e: E) -> P {
        if let Some(&r) = self.exb.get(&e) {
            return r;
        }
        let n = t().n(e);
        self.prep(n.a);
        self.prep(n.b);
        let r = self.mbool_def(e);
        self.exb.insert(e, r);
        r
    }
    fn mbool_def(&mut self, e: E) -> P {
        let n = t().n(e);
        debug_assert!(n.w == 1);
        let c = self.c;
        let r = unsafe {
            match n.op {
                Op::Const => {
                    if n.k == 1 {
                        (self.a.Z3_mk_true)(c)
                    } else {
                        (self.a.Z3_mk_false)(c)
                    }
                }
                Op::And => {
                    let v = [self.mbool(n.a), self.mbool(n.b)];
                    (self.a.Z3_mk_and)(c, 2, v.as_ptr())
                }
                Op::Or => {
                    let v = [self.mbool(n.a), self.mbool(n.b)];
                    (self.a.Z3_mk_or)(c, 2, v.as_ptr())
                }
                Op::Xor => {
                    let x = self.mbool(n.a);
                    if t().cval(n.b) == Some(1) {
                        (self.a.Z3_mk_not)(c, x)
                    } else {
                        let y = self.mbool(n.b);
                        (self.a.Z3_mk_xor)(c, x, y)
                    }
                }
                Op::Ite => {
                    let x = self.mbool(n.a);
                    let y = self.mbool(n.b);
                    let z = self.mbool(n.c);
                    (self.a.Z3_mk_ite)(c, x, y, z)
                }
                Op::Eq => {
                    if t().w(n.a) == 1 {
                        let (x, y) = (self.mbool(n.a), self.mbool(n.b));
                        (self.a.Z3_mk_eq)(c, x, y)
                    } else {
                        let (x, y) = (self.mbv(n.a), self.mbv(n.b));
                        (self.a.Z3_mk_eq)(c, x, y)
                    }
                }
                Op::Ult => {
                    let (x, y) = (self.mbv(n.a), self.mbv(n.b));
                    (self.a.Z3_mk_bvult)(c, x, y)
                }
                Op::Ule => {
                    let (x, y) = (self.mbv(n.a), self.mbv(n.b));
                    (self.a.Z3_mk_bvule)(c, x, y)
                }
                Op::Slt => {
                    let (x, y) = (self.mbv(n.a), self.mbv(n.b));
                    (self.a.Z3_mk_bvslt)(c, x, y)
                }
                Op::Sle => {
                    let (x, y) = (self.mbv(n.a), self.mbv(n.b));
                    (self.a.Z3_mk_bvsle)(c, x, y)
                }
                Op::FLt => {
                    let (x, y) = (self.mfp(n.a), self.mfp(n.b));
                    (self.a.Z3_mk_fpa_lt)(c, x, y)
                }
                Op::FLe => {
                    let (x, y) = (self.mfp(n.a), self.mfp(n.b));
                    (self.a.Z3_mk_fpa_leq)(c, x, y)
                }
                Op::FEq => {
                    let (x, y) = (self.mfp(n.a), self.mfp(n.b));
                    (self.a.Z3_mk_fpa_eq)(c, x, y)
                }
                Op::FUno => {
                    let (x, y) = (self.mfp(n.a), self.mfp(n.b));
                    let v = [(self.a.Z3_mk_fpa_is_nan)(c, x), (self.a.Z3_mk_fpa_is_nan)(c, y)];
                    (self.a.Z3_mk_or)(c, 2, v.as_ptr())
                }
                _ => {
                    let x = self.mbv(e);
                    (self.a.Z3_mk_eq)(c, x, self.num(1, 1))
                }
            }
        };
        r
    }
    fn mbv(&mut self, e: E) -> P {
        if self.bv[e as usize] != NUL {
            return self.bv[e as usize];
        }
        let n = t().n(e);
        let c = self.c;
        let w = n.w;
        let r = unsafe {
            match n.op {
                Op::Const => {
                    if w <= 64 {
                        self.num(n.k, w)
                    } else {
                        (self.a.Z3_mk_concat)(c, self.num(n.k2, w - 64), self.num(n.k, 64))
                    }
                }
                Op::Sym => {
                    let nm = CString::new(t().syms[n.k as usize].name.clone()).unwrap();
                    let s = (self.a.Z3_mk_string_symbol)(c, nm.as_ptr());
                    (self.a.Z3_mk_const)(c, s, (self.a.Z3_mk_bv_sort)(c, w as c_uint))
                }
                Op::Add | Op::Mul | Op::UDiv | Op::SDiv | Op::URem | Op::SRem | Op::And | Op::Or | Op::Xor | Op::Shl | Op::LShr | Op::AShr => {
                    let (x, y) = (self.mbv(n.a), self.mbv(n.b));
                    let f = match n.op {
                        Op::Add => self.a.Z3_mk_bvadd,
                        Op::Mul => self.a.Z3_mk_bvmul,
                        Op::UDiv => self.a.Z3_mk_bvudiv,
                        Op::SDiv => self.a.Z3_mk_bvsdiv,
                        Op::URem => self.a.Z3_mk_bvurem,
                        Op::SRem => self.a.Z3_mk_bvsrem,
                        Op::And => self.a.Z3_mk_bvand,
                        Op::Or => self.a.Z3_mk_bvor,
                        Op::Xor => self.a.Z3_mk_bvxor,
                        Op::Shl => self.a.Z3_mk_bvshl,
                        Op::LShr => self.a.Z3_mk_bvlshr,
                        _ => self.a.Z3_mk_bvashr,
                    };
                    f(c, x, y)
                }
                Op::Ite if w > 1 => {
                    let x = self.mbool(n.a);
                    let (y, z) = (self.mbv(n.b), self.mbv(n.c));
                    (self.a.Z3_mk_ite)(c, x, y, z)
                }
                Op::ZExt => {
                    let d = w - t().w(n.a);
                    let x = self.mbv(n.a);
                    (self.a.Z3_mk_zero_ext)(c, d as c_uint, x)
                }
                Op::SExt => {
                    let d = w - t().w(n.a);
                    let x = self.mbv(n.a);
                    (self.a.Z3_mk_sign_ext)(c, d as c_uint, x)
                }
                Op::Extract => {
                    let x = self.mbv(n.a);
                    (self.a.Z3_mk_extract)(c, n.k as c_uint + w as c_uint - 1, n.k as c_uint, x)
                }
                Op::Concat => {
                    let (x, y) = (self.mbv(n.a), self.mbv(n.b));
                    (self.a.Z3_mk_concat)(c, x, y)
                }
                Op::F2S | Op::F2U => {
                    let fw = t().w(n.a);
                    let x = self.mfp(n.a);
                    let sg = n.op == Op::F2S;
                    let rtz = (self.a.Z3_mk_fpa_rtz)(c);
                    let conv = if sg { (self.a.Z3_mk_fpa_to_sbv)(c, rtz, x, w as c_uint) } else { (self.a.Z3_mk_fpa_to_ubv)(c, rtz, x, w as c_uint) };
                    // saturation
                    let (lo, hi): (f64, f64) = if sg { (-(2f64.powi(w as i32 - 1)), 2f64.powi(w as i32 - 1)) } else { (0.0, 2f64.powi(w as i32)) };
                    let fc = |v: f64| -> P {
                        let b = if fw == 32 { (v as f32).to_bits() as u64 } else { v.to_bits() };
                        (self.a.Z3_mk_fpa_to_fp_bv)(c, self.num(b, fw), self.fsort(fw))
                    };
                    let minv = if sg { 1u64 << (w - 1) } else { 0 };
                    let maxv = if sg { mask(w) >> 1 } else { mask(w) };
                    let r1 = (self.a.Z3_mk_ite)(c, (self.a.Z3_mk_fpa_leq)(c, fc(hi), x), self.num(maxv, w), conv);
                    let r2 = (self.a.Z3_mk_ite)(c, (self.a.Z3_mk_fpa_leq)(c, x, fc(lo)), self.num(minv, w), r1);
                    (self.a.Z3_mk_ite)(c, (self.a.Z3_mk_fpa_is_nan)(c, x), self.num(0, w), r2)
                }
                Op::Libm => {
                    let nm = CString::new(format!("libm!{}", e)).unwrap();
                    let s = (self.a.Z3_mk_string_symbol)(c, nm.as_ptr());
                    let v = (self.a.Z3_mk_const)(c, s, (self.a.Z3_mk_bv_sort)(c, w as c_uint));
                    self.libm.insert(e, v);
                    v
                }
                Op::FAdd | Op::FSub | Op::FMul | Op::FDiv | Op::FSqrt | Op::FCvt | Op::Fx | Op::S2F | Op::U2F | Op::FRound => {
                    let x = self.mfp(e);
                    (self.a.Z3_mk_fpa_to_ieee_bv)(c, x)
                }
                _ => {
                    debug_assert!(w == 1);
                    let b = self.mbool(e);
                    (self.a.Z3_mk_ite)(c, b, self.num(1, 1), self.num(0, 1))
                }
            }
        };
        self.bv[e as usize] = r;
        r
    }
    fn mfp(&mut self, e: E) -> P {
        if self.fp[e as usize] != NUL {
            return self.fp[e as usize];
        }
        let n = t().n(e);
        let c = self.c;
        let w = n.w;
        let r = unsafe {
            let rne = (self.a.Z3_mk_fpa_rne)(c);
            match n.op {
                Op::FAdd | Op::FSub | Op::FMul | Op::FDiv => {
                    let (x, y) = (self.mfp(n.a), self.mfp(n.b));
                    let f = match n.op {
                        Op::FAdd => self.a.Z3_mk_fpa_add,
                        Op::FSub => self.a.Z3_mk_fpa_sub,
                        Op::FMul => self.a.Z3_mk_fpa_mul,
                        _ => self.a.Z3_mk_fpa_div,
                    };
                    f(c, rne, x, y)
                }
                Op::FSqrt => {
                    let x = self.mfp(n.a);
                    (self.a.Z3_mk_fpa_sqrt)(c, rne, x)
                }
                Op::FCvt => {
                    let x = self.mfp(n.a);
                    (self.a.Z3_mk_fpa_to_fp_float)(c, rne, x, self.fsort(w))
                }
                Op::Fx => {
                    let x = self.mbv(n.a);
                    let x = (self.a.Z3_mk_extract)(c, 54, 0, x);
                    let f = (self.a.Z3_mk_fpa_to_fp_signed)(c, rne, x, self.fsort(w));
                    let s = 2f64.powi(-(n.k as i64 as i32));
                    let b = if w == 32 { (s as f32).to_bits() as u64 } else { s.to_bits() };
                    let k = (self.a.Z3_mk_fpa_to_fp_bv)(c, self.num(b, w), self.fsort(w));
                    (self.a.Z3_mk_fpa_mul)(c, rne, f, k)
                }
                Op::S2F => {
                    let x = self.mbv(n.a);
                    (self.a.Z3_mk_fpa_to_fp_signed)(c, rne, x, self.fsort(w))
                }
                Op::U2F => {
                    let x = self.mbv(n.a);
                    (self.a.Z3_mk_fpa_to_fp_unsigned)(c, rne, x, self.fsort(w))
                }
                Op::FRound => {
                    let x = self.mfp(n.a);
                    let rm = match n.k {
                        0 => (self.a.Z3_mk_fpa_rtn)(c),
                        1 => (self.a.Z3_mk_fpa_rtp)(c),
                        2 => (self.a.Z3_mk_fpa_rtz)(c),
                        3 => (self.a.Z3_mk_fpa_rna)(c),
                        _ => rne,
                    };
                    (self.a.Z3_mk_fpa_round_to_integral)(c, rm, x)
                }
                Op::Xor if t().cval(n.b) == Some(1u64 << (w - 1)) => {
                    let x = self.mfp(n.a);
                    (self.a.Z3_mk_fpa_neg)(c, x)
                }
                Op::Ite => {
                    let x = self.mbool(n.a);
                    let (y, z) = (self.mfp(n.b), self.mfp(n.c));
                    (self.a.Z3_mk_ite)(c, x, y, z)
                }
                Op::ZExt if {
                    let m = t().n(n.a);
                    m.op == Op::Extract && m.k == 0 && m.w == w - 1 && t().w(m.a) == w
                } =>
                {
                    let m = t().n(n.a);
                    let x = self.mfp(m.a);
                    (self.a.Z3_mk_fpa_abs)(c, x)
                }
                _ => {
                    let x = self.mbv(e);
                    (self.a.Z3_mk_fpa_to_fp_bv)(c, x, self.fsort(w))
                }
            }
        };
        self.fp[e as usize] = r;
        r
    }

    fn walk(&mut self, cons: &[E]) -> (bool, Vec<E>, Vec<E>) {
        let mut seen = HashSet::new();
        let mut stack: Vec<E> = cons.to_vec();
        let mut fp = false;
        let mut libm = Vec::new();
        let mut cmps = Vec::new();
        while let Some(x) = stack.pop() {
            if !seen.insert(x) {
                continue;
            }
            let n = t().n(x);
            if self.abstracted(x) {
                cmps.push(x);
                if !self.exact.contains(&x) {
                    continue;
                }
            }
            match n.op {
                Op::FAdd | Op::FSub | Op::FMul | Op::FDiv | Op::FSqrt | Op::FLt | Op::FLe | Op::FEq | Op::FUno | Op::FCvt | Op::F2S | Op::F2U | Op::S2F | Op::U2F | Op::Fx | Op::FRound => fp = true,
                Op::Libm => {
                    fp = true;
                    libm.push(x)
                }
                Op::Sym => fp |= t().syms[n.k as usize].float,
                _ => {}
            }
            for k in [n.a, n.b, n.c] {
                if k != NONE {
                    stack.push(k);
                }
            }
        }
        (fp, libm, cmps)
    }

    /// decide the conjunction of `cons` (plus the declared symbol ranges)
    pub fn check(&mut self, cons: &[E]) -> Res {
        let t0 = Instant::now();
        self.queries += 1;
        let mut rounds = 0;
        let r = loop {
            let (r, again) = self.check1(cons, rounds);
            rounds += 1;
            if !again || rounds > 32 {
                break if again { Res::Unknown } else { r };
            }
        };
        self.exact.clear();
        let dt = t0.elapsed();
        self.secs += dt.as_secs_f64();
        self.max_ms = self.max_ms.max(dt.as_millis() as u64);
        match &r {
            Res::Sat(_) => self.n_sat += 1,
            Res::Unsat => self.n_unsat += 1,
            Res::Unknown => {
                self.n_unknown += 1;
                if std::env::var("QS_DEBUG").is_ok() {
                    eprintln!("UNKNOWN after {:?}:", dt);
                    for c in cons {
                        eprintln!("   {}", t().show(*c, 8));
                    }
                }
            }
        }
        if std::env::var("QS_SLOW").is_ok() && dt.as_millis() > 500 {
            eprintln!("slow query {:?} -> {}", dt, match &r { Res::Sat(_) => "sat", Res::Unsat => "unsat", _ => "unknown" });
            for c in cons {
                eprintln!("   {}", t().show(*c, 7));
            }
        }
        r
    }

    /// conj => (p or its negation)
    fn implied(&self, conj: &[P], p: P, real: bool) -> P {
        unsafe {
            let c = self.c;
            let ante = (self.a.Z3_mk_and)(c, conj.len() as c_uint, conj.as_ptr());
            let res = if real { p } else { (self.a.Z3_mk_not)(c, p) };
            let v = [(self.a.Z3_mk_not)(c, ante), res];
            (self.a.Z3_mk_or)(c, 2, v.as_ptr())
        }
    }
    /// comparisons the model got wrong: exclude the point, later spell out
    fn refine(&mut self, cmps: &[E], m: P, model: &Model, memo: &mut HashMap<E, u128>, round: u32) -> bool {
        let mut wrong = false;
        for &e in cmps {
            if self.exact.contains(&e) {
                continue;
            }
            let p = self.mbool(e);
            let mut out: P = NUL;
            let mut said = true;
            unsafe {
                if (self.a.Z3_model_eval)(self.c, m, p, true, &mut out) {
                    said = (self.a.Z3_get_bool_value)(self.c, out) == 1;
                }
            }
            let real = t().eval(e, model, memo) == 1;
            if said == real {
                continue;
            }
            wrong = true;
            if round >= 4 {
                if std::env::var("QS_DEBUG").is_ok() {
                    let n = t().n(e);
                    eprintln!("stuck (really {}) {}", real, t().show(e, 3));
                    if let Some(f) = t().atan_forms(n.a, n.b) {
                        for x in f {
                            eprintln!("  {} err {} mag {}: {}", x.1, x.2, x.3, x.0.iter().map(|l| format!("{}*{}", l.1, t().show(l.0, 2))).collect::<Vec<_>>().join(" "));
                        }
                    } else {
                        let (x, y) = (t().aff(n.a), t().aff(n.b));
                        eprintln!("  {:?}\n  {:?}", x, y);
                    }
                    for (k, v) in &model.v {
                        eprintln!("   {}={}", t().syms[*k as usize].name, *v as i64);
                    }
                    let mut w = Vec::new();
                    for x in [n.a, n.b] {
                        let m = t().n(x);
                        for y in [m.b, m.a] {
                            if y != NONE {
                                w.push(f32::from_bits(t().eval(y, model, memo) as u32));
                            }
                        }
                    }
                    eprintln!("   {:?}", w);
                }
                if self.quick && t().n(t().n(e).a).op == Op::Libm {
                    return false;
                }
                self.exact.insert(e);
                continue;
            }
            let pt = t().symset(e).iter().map(|&i| (i, model.get(i))).collect();
            self.points.entry(e).or_default().push((pt, real));
        }
        wrong
    }
    fn lia_var(&mut self, k: u32) -> P {
        if let Some(&p) = self.ivar.get(&k) {
            return p;
        }
        let p = unsafe {
            let nm = CString::new(format!("i!{}", k)).unwrap();
            let s = (self.a.Z3_mk_string_symbol)(self.c, nm.as_ptr());
            (self.a.Z3_mk_const)(self.c, s, (self.a.Z3_mk_int_sort)(self.c))
        };
        self.ivar.insert(k, p);
        p
    }
    fn lia_num(&self, v: i64) -> P {
        unsafe { (self.a.Z3_mk_int64)(self.c, v, (self.a.Z3_mk_int_sort)(self.c)) }
    }
    /// a signed whole-number term without overflow, as an integer
    fn mint(&mut self, e: E) -> Option<(P, i128, i128)> {
        if let Some(r) = self.ints.get(&e) {
            return *r;
        }
        let r = self.mint1(e);
        self.ints.insert(e, r);
        r
    }
    fn mint1(&mut self, e: E) -> Option<(P, i128, i128)> {
        let n = t().n(e);
        if n.w > 64 || n.w < 2 {
            return None;
        }
        let lim = 1i128 << (n.w - 1);
        let sx = |v: u64| ((v as i64) << (64 - n.w) >> (64 - n.w)) as i128;
        let c = self.c;
        let r = match n.op {
            Op::Const => (self.lia_num(sx(n.k) as i64), sx(n.k), sx(n.k)),
            Op::Sym => {
                let si = t().syms[n.k as usize].clone();
                if si.float {
                    return None;
                }
                let (lo, hi) = if si.signed { (sx(si.lo), sx(si.hi)) } else { (si.lo as i128, si.hi as i128) };
                (self.lia_var(n.k as u32), lo, hi)
            }
            Op::Add => {
                let (x, y) = (self.mint(n.a)?, self.mint(n.b)?);
                let v = [x.0, y.0];
                (unsafe { (self.a.Z3_mk_add)(c, 2, v.as_ptr()) }, x.1 + y.1, x.2 + y.2)
            }
            Op::Mul => {
                let k = sx(t().cval(n.b)?);
                let x = self.mint(n.a)?;
                let v = [x.0, self.lia_num(k as i64)];
                let (p, q) = (x.1 * k, x.2 * k);
                (unsafe { (self.a.Z3_mk_mul)(c, 2, v.as_ptr()) }, p.min(q), p.max(q))
            }
            Op::SExt => self.mint(n.a)?,
            Op::ZExt => {
                let x = self.mint(n.a)?;
                if x.1 < 0 {
                    return None;
                }
                x
            }
            Op::Ite => {
                let b = self.mibool(n.a)?;
                let (x, y) = (self.mint(n.b)?, self.mint(n.c)?);
                (unsafe { (self.a.Z3_mk_ite)(c, b, x.0, y.0) }, x.1.min(y.1), x.2.max(y.2))
            }
            _ => return None,
        };
        if r.1 < -lim || r.2 >= lim {
            return None;
        }
        Some(r)
    }
    fn mibool(&mut self, e: E) -> Option<P> {
        if let Some(r) = self.ibool.get(&e) {
            return *r;
        }
        let r = self.mibool1(e);
        self.ibool.insert(e, r);
        r
    }
    fn mibool1(&mut self, e: E) -> Option<P> {
        if self.abstracted(e) {
            self.grow();
            return Some(self.mbool(e));
        }
        let n = t().n(e);
        let c = self.c;
        unsafe {
            Some(match n.op {
                Op::Const => {
                    if n.k == 1 {
                        (self.a.Z3_mk_true)(c)
                    } else {
                        (self.a.Z3_mk_false)(c)
                    }
                }
                Op::And => {
                    let v = [self.mibool(n.a)?, self.mibool(n.b)?];
                    (self.a.Z3_mk_and)(c, 2, v.as_ptr())
                }
                Op::Or => {
                    let v = [self.mibool(n.a)?, self.mibool(n.b)?];
                    (self.a.Z3_mk_or)(c, 2, v.as_ptr())
                }
                Op::Xor => {
                    let x = self.mibool(n.a)?;
                    if t().cval(n.b) == Some(1) {
                        (self.a.Z3_mk_not)(c, x)
                    } else {
                        let y = self.mibool(n.b)?;
                        (self.a.Z3_mk_xor)(c, x, y)
                    }
                }
                Op::Ite => {
                    let (x, y, z) = (self.mibool(n.a)?, self.mibool(n.b)?, self.mibool(n.c)?);
                    (self.a.Z3_mk_ite)(c, x, y, z)
                }
                Op::Eq if t().w(n.a) == 1 => {
                    let (x, y) = (self.mibool(n.a)?, self.mibool(n.b)?);
                    (self.a.Z3_mk_eq)(c, x, y)
                }
                Op::Eq | Op::Slt | Op::Sle | Op::Ult | Op::Ule => {
                    let (x, y) = (self.mint(n.a)?, self.mint(n.b)?);
                    if matches!(n.op, Op::Ult | Op::Ule) && (x.1 < 0 || y.1 < 0) {
                        return None;
                    }
                    match n.op {
                        Op::Eq => (self.a.Z3_mk_eq)(c, x.0, y.0),
                        Op::Slt | Op::Ult => (self.a.Z3_mk_lt)(c, x.0, y.0),
                        _ => (self.a.Z3_mk_le)(c, x.0, y.0),
                    }
                }
                _ => return None,
            })
        }
    }
    /// when one angle is surely smaller, and when it is surely larger
    fn atan_lemma(&mut self, e: E) -> Option<(P, P)> {
        if let Some(r) = self.atl.get(&e) {
            return *r;
        }
        let r = self.atan_lemma1(e);
        self.atl.insert(e, r);
        r
    }
    fn atan_lemma1(&mut self, e: E) -> Option<(P, P)> {
        let n = t().n(e);
        let f = t().atan_forms(n.a, n.b)?;
        let c = self.c;
        let num = |s: &Self, v: i128| unsafe {
            let d = CString::new(v.to_string()).unwrap();
            (s.a.Z3_mk_numeral)(s.c, d.as_ptr(), (s.a.Z3_mk_int_sort)(s.c))
        };
        let mut x = Vec::new();
        for (v, k, _, _) in &f {
            let mut sum = vec![num(self, *k as i128)];
            for &(l, q) in v {
                let p = self.mint(l)?.0;
                let m = [num(self, q as i128), p];
                sum.push(unsafe { (self.a.Z3_mk_mul)(c, 2, m.as_ptr()) });
            }
            x.push(unsafe { (self.a.Z3_mk_add)(c, sum.len() as c_uint, sum.as_ptr()) });
        }
        unsafe {
            let gt = |s: &Self, p: P, v: i128| (s.a.Z3_mk_lt)(c, num(s, v), p);
            let lt = |s: &Self, p: P, v: i128| (s.a.Z3_mk_lt)(c, p, num(s, v));
            let er: Vec<i128> = f.iter().map(|q| q.2 as i128).collect();
            let mg: Vec<i128> = f.iter().map(|q| q.3 as i128 + q.2 as i128).collect();
            let pos: Vec<P> = (0..4).map(|i| gt(self, x[i], er[i])).collect();
            let neg: Vec<P> = (0..4).map(|i| lt(self, x[i], -er[i])).collect();
            let and = |s: &Self, v: &[P]| (s.a.Z3_mk_and)(c, v.len() as c_uint, v.as_ptr());
            let or = |s: &Self, v: &[P]| (s.a.Z3_mk_or)(c, v.len() as c_uint, v.as_ptr());
            let not = |s: &Self, v: P| (s.a.Z3_mk_not)(c, v);
            // the signs of y, also where rounding decides them
            let ye = [t().n(n.a).a, t().n(n.b).a];
            let mut sneg = [NUL; 2];
            let mut side = Vec::new();
            for i in 0..2 {
                let nm = CString::new(format!("neg!{}", ye[i])).unwrap();
                let s = (self.a.Z3_mk_string_symbol)(c, nm.as_ptr());
                sneg[i] = (self.a.Z3_mk_const)(c, s, (self.a.Z3_mk_bool_sort)(c));
                side.push(or(self, &[not(self, pos[2 * i + 1]), not(self, sneg[i])]));
                side.push(or(self, &[not(self, neg[2 * i + 1]), sneg[i]]));
            }
            let spos = [not(self, sneg[0]), not(self, sneg[1])];
            // products of the few linear parts
            let m1 = [x[0], x[3]];
            let p1 = (self.a.Z3_mk_mul)(c, 2, m1.as_ptr());
            let m2 = [num(self, -1), x[2], x[1]];
            let p2 = (self.a.Z3_mk_mul)(c, 3, m2.as_ptr());
            let v = [p1, p2];
            let cr = (self.a.Z3_mk_add)(c, 2, v.as_ptr());
            let slack = er[0] * mg[3] + er[3] * mg[0] + er[1] * mg[2] + er[2] * mg[1] + mg[0].max(mg[1]) * mg[2].max(mg[3]) / 400_000 + 1;
            let up = gt(self, cr, slack);
            let dn = lt(self, cr, -slack);
            // [x1 y1 x2 y2]
            let same = or(self, &[and(self, &[spos[0], spos[1]]), and(self, &[sneg[0], sneg[1]]), and(self, &[pos[0], pos[2]])]);
            let uo = or(self, &[same, and(self, &[pos[0], spos[1]]), and(self, &[pos[2], sneg[0]])]);
            let dno = or(self, &[same, and(self, &[pos[0], sneg[1]]), and(self, &[pos[2], spos[0]])]);
            let l = or(self, &[neg[1], pos[3], neg[0], neg[2]]);
            let m = or(self, &[pos[1], neg[3], neg[0], neg[2]]);
            let less = or(self, &[and(self, &[sneg[0], spos[1], l]), and(self, &[uo, up])]);
            let more = or(self, &[and(self, &[spos[0], sneg[1], m]), and(self, &[dno, dn])]);
            let both = and(self, &side);
            self.sides.insert(e, both);
            Some(if n.op == Op::FEq { ((self.a.Z3_mk_false)(c), or(self, &[less, more])) } else { (less, more) })
        }
    }
    fn real(&self, v: f64) -> P {
        unsafe {
            let d = CString::new(format!("{:.60}", v)).unwrap();
            (self.a.Z3_mk_numeral)(self.c, d.as_ptr(), (self.a.Z3_mk_real_sort)(self.c))
        }
    }
    /// put the noted comparisons to the solver: (facts, proved, groups)
    pub fn confirm(&mut self) -> (u64, u64, u64) {
        let all: Vec<((Op, E, E), bool)> = t().decided.iter().map(|(k, v)| (*k, *v)).collect();
        let t0 = Instant::now();
        let (mut proved, mut groups) = (0, 0);
        let mut lin = Vec::new();
        for &(k, v) in &all {
            if t().n(k.1).op == Op::Libm && t().n(k.2).op == Op::Libm {
                // an angle comparison: products of linear forms
                self.queries += 1;
                groups += 1;
                if self.confirm_angle(k, v) {
                    proved += 1;
                    self.n_unsat += 1;
                } else {
                    self.n_unknown += 1;
                }
            } else {
                lin.push((k, v));
            }
        }
        for g in lin.chunks(150) {
            groups += 1;
            self.queries += 1;
            if self.confirm_group(g) {
                proved += g.len() as u64;
                self.n_unsat += 1;
            } else {
                self.n_unknown += 1;
                for x in g {
                    groups += 1;
                    self.queries += 1;
                    if self.confirm_group(std::slice::from_ref(x)) {
                        proved += 1;
                        self.n_unsat += 1;
                    } else {
                        self.n_unknown += 1;
                        if std::env::var("QS_DEBUG").is_ok() {
                            eprintln!("not confirmed: {:?} {} {}", x, t().show(x.0 .1, 4), t().show(x.0 .2, 4));
                        }
                    }
                }
            }
        }
        self.secs += t0.elapsed().as_secs_f64();
        (all.len() as u64, proved, groups)
    }
    fn solve_li(&mut self, form: &[P], ms: u32) -> c_int {
        let (c, s) = (self.c, self.s_li);
        unsafe {
            (self.a.Z3_solver_reset)(c, s);
            let p = (self.a.Z3_mk_params)(c);
            (self.a.Z3_params_inc_ref)(c, p);
            let k = CString::new("timeout").unwrap();
            let k = (self.a.Z3_mk_string_symbol)(c, k.as_ptr());
            (self.a.Z3_params_set_uint)(c, p, k, ms);
            (self.a.Z3_solver_set_params)(c, s, p);
            for &f in form {
                (self.a.Z3_solver_assert)(c, s, f);
            }
            (self.a.Z3_solver_check)(c, s)
        }
    }
    fn real_const(&self, nm: String) -> P {
        unsafe {
            let nm = CString::new(nm).unwrap();
            let s = (self.a.Z3_mk_string_symbol)(self.c, nm.as_ptr());
            (self.a.Z3_mk_const)(self.c, s, (self.a.Z3_mk_real_sort)(self.c))
        }
    }
    /// a variable for a float term, within its error of its linear form and
    /// within its range
    fn real_term(&mut self, e: E, form: &mut Vec<P>, leaves: &mut HashSet<E>) -> P {
        let c = self.c;
        if let Some(v) = t().cval(e) {
            return self.real(fval(v, t().w(e)));
        }
        let x = self.real_const(format!("r!{}", e));
        let f = t().aff(e).unwrap();
        let fr = t().frange(e);
        unsafe {
            let mut sum = vec![self.real(f.c)];
            for &(l, k) in &f.v {
                let y = self.real_const(format!("l!{}", l));
                if leaves.insert(l) {
                    let (lo, hi) = t().leaf_range(l);
                    form.push((self.a.Z3_mk_le)(c, self.real(lo), y));
                    form.push((self.a.Z3_mk_le)(c, y, self.real(hi)));
                }
                let m = [self.real(k), y];
                sum.push((self.a.Z3_mk_mul)(c, 2, m.as_ptr()));
            }
            let s = (self.a.Z3_mk_add)(c, sum.len() as c_uint, sum.as_ptr());
            let v = [s, self.real(f.err)];
            form.push((self.a.Z3_mk_le)(c, x, (self.a.Z3_mk_add)(c, 2, v.as_ptr())));
            let v = [s, self.real(-f.err)];
            form.push((self.a.Z3_mk_le)(c, (self.a.Z3_mk_add)(c, 2, v.as_ptr()), x));
            form.push((self.a.Z3_mk_le)(c, self.real(fr.lo), x));
            form.push((self.a.Z3_mk_le)(c, x, self.real(fr.hi)));
        }
        x
    }
    /// no values of the inputs make any of the comparisons come out otherwise
    fn confirm_group(&mut self, g: &[((Op, E, E), bool)]) -> bool {
        let c = self.c;
        let mut form = Vec::new();
        let mut leaves = HashSet::new();
        let mut terms: HashMap<E, P> = HashMap::new();
        let mut alt = Vec::new();
        for &((op, a, b), v) in g {
            let mut xy = [NUL; 2];
            for (i, e) in [a, b].into_iter().enumerate() {
                xy[i] = match terms.get(&e) {
                    Some(&p) => p,
                    None => {
                        let p = self.real_term(e, &mut form, &mut leaves);
                        terms.insert(e, p);
                        p
                    }
                };
            }
            unsafe {
                let f = match op {
                    Op::FLt => (self.a.Z3_mk_lt)(c, xy[0], xy[1]),
                    Op::FLe => (self.a.Z3_mk_le)(c, xy[0], xy[1]),
                    _ => (self.a.Z3_mk_eq)(c, xy[0], xy[1]),
                };
                alt.push(if v { (self.a.Z3_mk_not)(c, f) } else { f });
            }
        }
        form.push(unsafe { (self.a.Z3_mk_or)(c, alt.len() as c_uint, alt.as_ptr()) });
        self.solve_li(&form, 20000) == -1
    }
    fn confirm_angle(&mut self, k: (Op, E, E), v: bool) -> bool {
        let e = t().plain_cmp(k.0, k.1, k.2);
        let (less, more) = match self.atan_lemma(e) {
            Some(x) => x,
            None => return false,
        };
        let mut form = Vec::new();
        if let Some(&x) = self.sides.get(&e) {
            form.push(x);
        }
        let mut syms: Vec<u32> = t().symset(k.1).to_vec();
        syms.extend_from_slice(&t().symset(k.2));
        for &i in &syms {
            if let Some(x) = self.mint(t().syms[i as usize].e) {
                let (lo, hi) = (self.lia_num(x.1 as i64), self.lia_num(x.2 as i64));
                unsafe {
                    form.push((self.a.Z3_mk_le)(self.c, lo, x.0));
                    form.push((self.a.Z3_mk_le)(self.c, x.0, hi));
                }
            }
        }
        let sure = if v { less } else { more };
        form.push(unsafe { (self.a.Z3_mk_not)(self.c, sure) });
        self.solve_li(&form, 500) == -1
    }
    /// decide constraints that are linear over the integers (comparisons of
    /// rounding arithmetic again as propositions with lemmas)
    fn check_li(&mut self, cons: &[E], cmps: &[E], round: u32) -> Option<(Res, bool)> {
        let mut syms: Vec<u32> = Vec::new();
        for &e in cons {
            syms.extend_from_slice(&t().symset(e));
        }
        syms.sort_unstable();
        syms.dedup();
        if !syms.iter().any(|&i| t().syms[i as usize].w == 64) || syms.iter().any(|&i| t().syms[i as usize].float) {
            return None;
        }
        let mut form = Vec::new();
        for &e in cons {
            form.push(self.mibool(e)?);
        }
        let c = self.c;
        for &e in cmps {
            let p = self.mibool(e)?;
            let lem = match self.atan_lemma(e) {
                Some(l) => Some(l),
                None => match t().aff_lemma(t().n(e).op, t().n(e).a, t().n(e).b) {
                    Some((yes, no)) => Some((self.mibool(yes)?, self.mibool(no)?)),
                    None => None,
                },
            };
            if let Some(&x) = self.sides.get(&e) {
                form.push(x);
            }
            if let Some((y, o)) = lem {
                form.push(self.implied(&[y], p, true));
                form.push(self.implied(&[o], p, false));
            }
            for (pt, real) in self.points.get(&e).cloned().unwrap_or_default() {
                let mut conj = Vec::new();
                for (i, v) in pt {
                    let se = t().syms[i as usize].e;
                    let w = t().syms[i as usize].w;
                    let x = self.mint(se)?;
                    let sv = if t().syms[i as usize].signed { (v as i64) << (64 - w) >> (64 - w) } else { v as i64 };
                    conj.push(unsafe { (self.a.Z3_mk_eq)(c, x.0, self.lia_num(sv)) });
                }
                form.push(self.implied(&conj, p, real));
            }
        }
        for &i in &syms {
            let x = self.mint(t().syms[i as usize].e)?;
            let (lo, hi) = (self.lia_num(x.1 as i64), self.lia_num(x.2 as i64));
            unsafe {
                form.push((self.a.Z3_mk_le)(c, lo, x.0));
                form.push((self.a.Z3_mk_le)(c, x.0, hi));
            }
        }
        self.n_li += 1;
        let s = self.s_li;
        unsafe {
            (self.a.Z3_solver_reset)(c, s);
            let p = (self.a.Z3_mk_params)(c);
            (self.a.Z3_params_inc_ref)(c, p);
            let k = CString::new("timeout").unwrap();
            let k = (self.a.Z3_mk_string_symbol)(c, k.as_ptr());
            (self.a.Z3_params_set_uint)(c, p, k, 5000);
            (self.a.Z3_solver_set_params)(c, s, p);
            for f in form {
                (self.a.Z3_solver_assert)(c, s, f);
            }
            let t0 = Instant::now();
            let r = (self.a.Z3_solver_check)(c, s);
            if let (Some(d), true) = (&self.dump, t0.elapsed().as_millis() > 300) {
                let q = std::ffi::CStr::from_ptr((self.a.Z3_solver_to_string)(c, s)).to_string_lossy().into_owned();
                let _ = std::fs::write(format!("{}/q{}_{}_{}.smt2", d, self.queries, round, r), q + "(check-sat)\n");
            }
            match r {
                -1 => return Some((Res::Unsat, false)),
                0 => return None,
                _ => {}
            }
            let m = (self.a.Z3_solver_get_model)(c, s);
            (self.a.Z3_model_inc_ref)(c, m);
            let mut model = Model::default();
            for &i in &syms {
                let x = self.lia_var(i);
                let mut out: P = NUL;
                let mut v = 0i64;
                if (self.a.Z3_model_eval)(c, m, x, true, &mut out) && (self.a.Z3_get_numeral_int64)(c, out, &mut v) {
                    model.v.insert(i, v as u64 & mask(t().syms[i as usize].w));
                }
            }
            let mut memo = HashMap::new();
            if cons.iter().all(|&e| t().eval(e, &model, &mut memo) == 1) {
                (self.a.Z3_model_dec_ref)(c, m);
                return Some((Res::Sat(model), false));
            }
            let wrong = self.refine(cmps, m, &model, &mut memo, round);
            (self.a.Z3_model_dec_ref)(c, m);
            if wrong {
                return Some((Res::Unknown, true));
            }
            if round >= 4 {
                return Some((Res::Unknown, false));
            }
            eprintln!("qsym: integer model does not satisfy the terms");
            None
        }
    }

    fn check1(&mut self, cons: &[E], round: u32) -> (Res, bool) {
        let (mut fp, libm, cmps) = self.walk(cons);
        if self.exact.is_empty() && libm.is_empty() {
            if let Some(r) = self.check_li(cons, &cmps, round) {
                return r;
            }
        }
        let mut side: Vec<P> = Vec::new();
        for &e in &cmps {
            let n = t().n(e);
            self.grow();
            let p = self.mbool(e);
            if let Some((yes, no)) = t().aff_lemma(n.op, n.a, n.b) {
                self.prep(yes);
                self.prep(no);
                let (y, o) = (self.mbool(yes), self.mbool(no));
                unsafe {
                    let c = self.c;
                    let np = (self.a.Z3_mk_not)(c, p);
                    let v = [(self.a.Z3_mk_not)(c, y), p];
                    side.push((self.a.Z3_mk_or)(c, 2, v.as_ptr()));
                    let v = [(self.a.Z3_mk_not)(c, o), np];
                    side.push((self.a.Z3_mk_or)(c, 2, v.as_ptr()));
                }
            }
            for (pt, real) in self.points.get(&e).cloned().unwrap_or_default() {
                let mut conj = Vec::new();
                for (i, v) in pt {
                    let si = t().syms[i as usize].clone();
                    let x = self.mbv(si.e);
                    conj.push(unsafe { (self.a.Z3_mk_eq)(self.c, x, self.num(v, si.w)) });
                }
                side.push(self.implied(&conj, p, real));
            }
            if self.exact.contains(&e) {
                let x = self.mexact(e);
                side.push(unsafe { (self.a.Z3_mk_eq)(self.c, p, x) });
            }
        }
        for &e in cons {
            self.prep(e);
        }
        let mut syms: Vec<u32> = Vec::new();
        for &e in cons {
            syms.extend_from_slice(&t().symset(e));
        }
        syms.sort_unstable();
        syms.dedup();
        fp |= syms.iter().any(|&i| t().syms[i as usize].float);
        let s = if fp { self.s_fp } else { self.s_bv };
        let c = self.c;
        unsafe {
            (self.a.Z3_solver_reset)(c, s);
            // spelled-out rounding arithmetic with library functions in it is
            // rarely worth the wait
            let tmo = if !self.exact.is_empty() && (self.quick || !libm.is_empty()) { self.timeout_ms.min(700) } else { self.timeout_ms };
            if self.cur_timeout != tmo {
                for s in [self.s_bv, self.s_fp] {
                    let p = (self.a.Z3_mk_params)(c);
                    (self.a.Z3_params_inc_ref)(c, p);
                    let k = CString::new("timeout").unwrap();
                    let k = (self.a.Z3_mk_string_symbol)(c, k.as_ptr());
                    (self.a.Z3_params_set_uint)(c, p, k, tmo);
                    (self.a.Z3_solver_set_params)(c, s, p);
                }
                self.cur_timeout = tmo;
            }
            for &e in cons {
                let b = self.mbool(e);
                (self.a.Z3_solver_assert)(c, s, b);
            }
            for &x in &side {
                (self.a.Z3_solver_assert)(c, s, x);
            }
            for &i in &syms {
                let si = t().syms[i as usize].clone();
                self.grow();
                let x = self.mbv(si.e);
                if si.float {
                    let f = self.mfp(si.e);
                    let lo = (self.a.Z3_mk_fpa_to_fp_bv)(c, self.num(si.lo, si.w), self.fsort(si.w));
                    let hi = (self.a.Z3_mk_fpa_to_fp_bv)(c, self.num(si.hi, si.w), self.fsort(si.w));
                    (self.a.Z3_solver_assert)(c, s, (self.a.Z3_mk_fpa_leq)(c, lo, f));
                    (self.a.Z3_solver_assert)(c, s, (self.a.Z3_mk_fpa_leq)(c, f, hi));
                } else if si.signed {
                    (self.a.Z3_solver_assert)(c, s, (self.a.Z3_mk_bvsle)(c, self.num(si.lo & mask(si.w), si.w), x));
                    (self.a.Z3_solver_assert)(c, s, (self.a.Z3_mk_bvsle)(c, x, self.num(si.hi & mask(si.w), si.w)));
                } else if si.lo != 0 || si.hi != mask(si.w) {
                    (self.a.Z3_solver_assert)(c, s, (self.a.Z3_mk_bvule)(c, self.num(si.lo, si.w), x));
                    (self.a.Z3_solver_assert)(c, s, (self.a.Z3_mk_bvule)(c, x, self.num(si.hi, si.w)));
                }
            }
            for &e in &libm {
                let fr = t().frange(e);
                let w = t().w(e);
                let v = self.mbv(e);
                let f = (self.a.Z3_mk_fpa_to_fp_bv)(c, v, self.fsort(w));
                if !fr.nan {
                    let fb = |v: f64| if w == 32 { (v as f32).to_bits() as u64 } else { v.to_bits() };
                    let lo = (self.a.Z3_mk_fpa_to_fp_bv)(c, self.num(fb(fr.lo), w), self.fsort(w));
                    let hi = (self.a.Z3_mk_fpa_to_fp_bv)(c, self.num(fb(fr.hi), w), self.fsort(w));
                    (self.a.Z3_solver_assert)(c, s, (self.a.Z3_mk_fpa_leq)(c, lo, f));
                    (self.a.Z3_solver_assert)(c, s, (self.a.Z3_mk_fpa_leq)(c, f, hi));
                }
                if let Some(l) = self.lemmas.get(&e) {
                    for &x in l {
                        (self.a.Z3_solver_assert)(c, s, x);
                    }
                }
            }
            let r = (self.a.Z3_solver_check)(c, s);
            if r == -1 {
                return (Res::Unsat, false);
            }
            if r == 0 {
                return (Res::Unknown, false);
            }
            let m = (self.a.Z3_solver_get_model)(c, s);
            (self.a.Z3_model_inc_ref)(c, m);
            let mut model = Model::default();
            for &i in &syms {
                let e = t().syms[i as usize].e;
                let x = self.mbv(e);
                let mut out: P = NUL;
                let mut v = 0u64;
                if (self.a.Z3_model_eval)(c, m, x, true, &mut out) && (self.a.Z3_get_numeral_uint64)(c, out, &mut v) {
                    model.v.insert(i, v);
                } else {
                    eprintln!("no value for {}", t().syms[i as usize].name);
                }
            }
            // every model is checked against the concrete semantics of the terms
            let mut memo = HashMap::new();
            let ok = cons.iter().all(|&e| t().eval(e, &model, &mut memo) == 1);
            if ok {
                (self.a.Z3_model_dec_ref)(c, m);
                return (Res::Sat(model), false);
            }
            let wrong = self.refine(&cmps, m, &model, &mut memo, round);
            (self.a.Z3_model_dec_ref)(c, m);
            if wrong {
                return (Res::Unknown, true);
            }
            if libm.is_empty() {
                eprintln!("qsym: solver model does not satisfy the terms (fp={})", fp);
                for &e in cons {
                    if t().eval(e, &model, &mut memo) != 1 {
                        eprintln!("   {}", t().show(e, 6));
                    }
                }
                return (Res::Unknown, false);
            }
            // refine the library functions at the point the model picked
            for &e in &libm {
                let n = t().n(e);
                let mut conj = Vec::new();
                for k in [n.a, n.b] {
                    if k != NONE {
                        let v = t().eval(k, &model, &mut memo) as u64;
                        let x = self.mbv(k);
                        conj.push((self.a.Z3_mk_eq)(c, x, self.num(v, n.w)));
                    }
                }
                let val = t().eval(e, &model, &mut memo) as u64;
                let x = self.mbv(e);
                let res = (self.a.Z3_mk_eq)(c, x, self.num(val, n.w));
                let ante = (self.a.Z3_mk_and)(c, conj.len() as c_uint, conj.as_ptr());
                let v = [(self.a.Z3_mk_not)(c, ante), res];
                let l = (self.a.Z3_mk_or)(c, 2, v.as_ptr());
                self.lemmas.entry(e).or_default().push(l);
            }
            (Res::Unknown, true)
        }
    }
}
