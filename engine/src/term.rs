//! Hash-consed bit-vector / IEEE-754 terms with a simplifier, integer ranges,
//! known-zero masks, floating-point intervals and exact fixed-point ("grid")
//! arithmetic. Every rewrite here is an equivalence over all values of the
//! symbols (subject to the declared symbol ranges, which are also asserted to
//! the solver).
use std::collections::HashMap;
use std::rc::Rc;

pub type E = u32;
pub const NONE: E = u32::MAX;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub enum Op {
    Const,
    Sym,
    Add,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
    Eq,
    Ult,
    Ule,
    Slt,
    Sle,
    Ite,
    ZExt,
    SExt,
    Extract, // k = low bit
    Concat,  // a = high, b = low
    // floating point; operands and result are bit patterns
    FAdd,
    FSub,
    FMul,
    FDiv,
    FSqrt,
    FLt,
    FLe,
    FEq,
    FUno,
    FCvt,    // float <-> double
    F2S,     // saturating, NaN -> 0
    F2U,     // saturating, NaN -> 0
    S2F,
    U2F,
    Fx,      // a: signed 64-bit integer n, k: scale; value n * 2^-k, exact; zero is +0
    FRound,  // k: 0 floor 1 ceil 2 trunc 3 round-half-away 4 rint
    Libm,    // k: function id (see libm_eval), a, b
}
use Op::*;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Node {
    pub op: Op,
    pub w: u16,
    pub a: E,
    pub b: E,
    pub c: E,
    pub k: u64,
    pub k2: u64,
}

#[derive(Clone, Copy, Debug)]
pub struct Info {
    pub umin: u64,
    pub umax: u64,
    pub smin: i64,
    pub smax: i64,
    pub kz: u64, // bits known to be zero (w<=64)
}

#[derive(Clone, Copy, Debug)]
pub struct FR {
    pub lo: f64,
    pub hi: f64,
    pub nan: bool,
}

/// an affine form over whole-number terms (and float terms taken as they are)
/// with an error bound: |value - (c + sum of coefficient*leaf)| <= err for all
/// values of the symbols
#[derive(Clone, Debug)]
pub struct Aff {
    pub v: Vec<(E, f64)>,
    pub c: f64,
    pub err: f64,
}

#[derive(Clone, Debug)]
pub struct SymInfo {
    pub name: String,
    pub w: u16,
    pub float: bool,
    pub lo: u64, // unsigned / signed / float bits bounds, inclusive
    pub hi: u64,
    pub signed: bool,
    pub init: u64,
    pub e: E,
}

pub struct Terms {
    pub nodes: Vec<Node>,
    map: HashMap<Node, E>,
    pub info: Vec<Info>,
    fr: Vec<Option<FR>>,
    af: Vec<Option<Rc<Aff>>>,
    exv: HashMap<E, Option<(E, i32)>>,
    pub decided: std::collections::BTreeMap<(Op, E, E), bool>,
    atans: HashMap<(Op, E, E), Option<E>>,
    symsets: Vec<Option<Rc<[u32]>>>,
    pub syms: Vec<SymInfo>,
    pub symname: HashMap<String, u32>,
    fxv: HashMap<E, Option<(E, i32)>>,
    pub use_fx: bool,
}

pub fn mask(w: u16) -> u64 {
    if w >= 64 {
        u64::MAX
    } else {
        (1u64 << w) - 1
    }
}
fn mask128(w: u16) -> u128 {
    if w >= 128 {
        u128::MAX
    } else {
        (1u128 << w) - 1
    }
}
pub fn sx(v: u64, w: u16) -> i64 {
    if w >= 64 {
        v as i64
    } else {
        ((v << (64 - w)) as i64) >> (64 - w)
    }
}
fn sx128(v: u128, w: u16) -> i128 {
    if w >= 128 {
        v as i128
    } else {
        ((v << (128 - w)) as i128) >> (128 - w)
    }
}

pub fn fval(bits: u64, w: u16) -> f64 {
    if w == 32 {
        f32::from_bits(bits as u32) as f64
    } else {
        f64::from_bits(bits)
    }
}

pub fn fop(op: Op, w: u16, a: u64, b: u64) -> u64 {
    if w == 32 {
        let x = f32::from_bits(a as u32);
        let y = f32::from_bits(b as u32);
        (match op {
            FAdd => x + y,
            FSub => x - y,
            FMul => x * y,
            FDiv => x / y,
            FSqrt => x.sqrt(),
            _ => unreachable!(),
        })
        .to_bits() as u64
    } else {
        let x = f64::from_bits(a);
        let y = f64::from_bits(b);
        (match op {
            FAdd => x + y,
            FSub => x - y,
            FMul => x * y,
            FDiv => x / y,
            FSqrt => x.sqrt(),
            _ => unreachable!(),
        })
        .to_bits()
    }
}

extern "C" {
    fn atan2f(y: f32, x: f32) -> f32;
    fn sinf(x: f32) -> f32;
    fn cosf(x: f32) -> f32;
    fn tanf(x: f32) -> f32;
    fn acosf(x: f32) -> f32;
    fn asinf(x: f32) -> f32;
    fn atanf(x: f32) -> f32;
    fn fmodf(x: f32, y: f32) -> f32;
    fn powf(x: f32, y: f32) -> f32;
    fn expf(x: f32) -> f32;
    fn logf(x: f32) -> f32;
    fn hypotf(x: f32, y: f32) -> f32;
    fn atan2(y: f64, x: f64) -> f64;
    fn sin(x: f64) -> f64;
    fn cos(x: f64) -> f64;
    fn tan(x: f64) -> f64;
    fn acos(x: f64) -> f64;
    fn asin(x: f64) -> f64;
    fn atan(x: f64) -> f64;
    fn fmod(x: f64, y: f64) -> f64;
    fn pow(x: f64, y: f64) -> f64;
    fn exp(x: f64) -> f64;
    fn log(x: f64) -> f64;
    fn hypot(x: f64, y: f64) -> f64;
}
pub const LIBM: [&str; 12] = [
    "atan2", "sin", "cos", "tan", "acos", "asin", "atan", "fmod", "pow", "exp", "log", "hypot",
];
pub fn libm_eval(id: u64, w: u16, a: u64, b: u64) -> u64 {
    unsafe {
        if w == 32 {
            let x = f32::from_bits(a as u32);
            let y = f32::from_bits(b as u32);
            (match id {
                0 => atan2f(x, y),
                1 => sinf(x),
                2 => cosf(x),
                3 => tanf(x),
                4 => acosf(x),
                5 => asinf(x),
                6 => atanf(x),
                7 => fmodf(x, y),
                8 => powf(x, y),
                9 => expf(x),
                10 => logf(x),
                _ => hypotf(x, y),
            })
            .to_bits() as u64
        } else {
            let x = f64::from_bits(a);
            let y = f64::from_bits(b);
            (match id {
                0 => atan2(x, y),
                1 => sin(x),
                2 => cos(x),
                3 => tan(x),
                4 => acos(x),
                5 => asin(x),
                6 => atan(x),
                7 => fmod(x, y),
                8 => pow(x, y),
                9 => exp(x),
                10 => log(x),
                _ => hypot(x, y),
            })
            .to_bits()
        }
    }
}

pub fn f2s(bits: u64, fw: u16, w: u16) -> u64 {
    let v = fval(bits, fw);
    if v.is_nan() {
        return 0;
    }
    if w >= 64 {
        return v as i64 as u64;
    }
    let lo = -(1i64 << (w - 1));
    let hi = (1i64 << (w - 1)) - 1;
    let r = (v as i64).clamp(lo, hi);
    (r as u64) & mask(w)
}
pub fn f2u(bits: u64, fw: u16, w: u16) -> u64 {
    let v = fval(bits, fw);
    if v.is_nan() {
        return 0;
    }
    (v as u64).min(mask(w))
}
pub fn i2f(v: i64, fw: u16) -> u64 {
    if fw == 32 {
        (v as f32).to_bits() as u64
    } else {
        (v as f64).to_bits()
    }
}
pub fn u2f(v: u64, fw: u16) -> u64 {
    if fw == 32 {
        (v as f32).to_bits() as u64
    } else {
        (v as f64).to_bits()
    }
}
pub fn fround(k: u64, bits: u64, w: u16) -> u64 {
    let v = fval(bits, w);
    let r = match k {
        0 => v.floor(),
        1 => v.ceil(),
        2 => v.trunc(),
        3 => v.round(),
        _ => v.round_ties_even(),
    };
    if w == 32 {
        (r as f32).to_bits() as u64
    } else {
        r.to_bits()
    }
}
pub fn fcvt(bits: u64, from: u16, to: u16) -> u64 {
    if from == 32 && to == 64 {
        (f32::from_bits(bits as u32) as f64).to_bits()
    } else if from == 64 && to == 32 {
        (f64::from_bits(bits) as f32).to_bits() as u64
    } else {
        bits
    }
}

fn pow2(k: i32) -> f64 {
    2f64.powi(k)
}

/// decompose a finite float constant into n * 2^-k with odd n or zero
fn dyadic(v: f64) -> Option<(i64, i32)> {
    if v == 0.0 {
        return Some((0, 0));
    }
    if !v.is_finite() {
        return None;
    }
    let mut k = 0i32;
    let mut x = v;
    while x.fract() != 0.0 {
        x *= 2.0;
        k += 1;
        if k > 40 {
            return None;
        }
    }
    if x.abs() >= 9.0e15 {
        return None;
    }
    let mut n = x as i64;
    while n % 2 == 0 && k > -20 && n != 0 {
        n /= 2;
        k -= 1;
    }
    Some((n, k))
}

pub static mut TERMS: *mut Terms = std::ptr::null_mut();
pub fn t() -> &'static mut Terms {
    unsafe { &mut *TERMS }
}
pub fn init() {
    let tm = Terms {
        nodes: Vec::new(),
        map: HashMap::new(),
        info: Vec::new(),
        fr: Vec::new(),
        af: Vec::new(),
            exv: HashMap::new(),
        decided: Default::default(),
        atans: HashMap::new(),
        symsets: Vec::new(),
        syms: Vec::new(),
        symname: HashMap::new(),
        fxv: HashMap::new(),
        use_fx: true,
    };
    unsafe { TERMS = Box::into_raw(Box::new(tm)) }
}

impl Terms {
    pub fn n(&self, e: E) -> Node {
        self.nodes[e as usize]
    }
    pub fn w(&self, e: E) -> u16 {
        self.nodes[e as usize].w
    }
    pub fn inf(&self, e: E) -> Info {
        self.info[e as usize]
    }
    pub fn cval(&self, e: E) -> Option<u64> {
        let n = &self.nodes[e as usize];
        if n.op == Const && n.w <= 64 {
            Some(n.k)
        } else {
            None
        }
    }
    fn c128(&self, e: E) -> Option<u128> {
        let n = &self.nodes[e as usize];
        if n.op == Const {
            Some((n.k2 as u128) << 64 | n.k as u128)
        } else {
            None
        }
    }

    fn raw(&mut self, n: Node) -> E {
        if let Some(&e) = self.map.get(&n) {
            return e;
        }
        let e = self.nodes.len() as E;
        let inf = self.compute_info(&n);
        self.nodes.push(n);
        self.info.push(inf);
        self.fr.push(None);
        self.af.push(None);
        self.symsets.push(None);
        self.map.insert(n, e);
        e
    }
    fn mk(&mut self, op: Op, w: u16, a: E, b: E, c: E, k: u64) -> E {
        let e = self.raw(Node { op, w, a, b, c, k, k2: 0 });
        // a term whose range is a single value is that value
        if w <= 64 && op != Const {
            let i = self.info[e as usize];
            if i.umin == i.umax {
                return self.con(i.umin, w);
            }
        }
        e
    }
    /// the comparison as it stands
    pub fn plain_cmp(&mut self, op: Op, a: E, b: E) -> E {
        self.raw(Node { op, w: 1, a, b, c: NONE, k: 0, k2: 0 })
    }
    pub fn con(&mut self, v: u64, w: u16) -> E {
        self.raw(Node { op: Const, w, a: NONE, b: NONE, c: NONE, k: v & mask(w), k2: 0 })
    }
    pub fn con128(&mut self, v: u128, w: u16) -> E {
        let v = v & mask128(w);
        self.raw(Node { op: Const, w, a: NONE, b: NONE, c: NONE, k: v as u64, k2: (v >> 64) as u64 })
    }
    pub fn tru(&mut self) -> E {
        self.con(1, 1)
    }
    pub fn fls(&mut self) -> E {
        self.con(0, 1)
    }
    pub fn sym(&mut self, name: &str, w: u16, float: bool, signed: bool, lo: u64, hi: u64, init: u64) -> E {
        if let Some(&i) = self.symname.get(name) {
            let s = &self.syms[i as usize];
            assert!(s.w == w && s.lo == lo && s.hi == hi, "symbol {} re-declared differently", name);
            return s.e;
        }
        let id = self.syms.len() as u32;
        self.syms.push(SymInfo { name: name.to_string(), w, float, signed, lo, hi, init, e: NONE });
        self.symname.insert(name.to_string(), id);
        let e = self.raw(Node { op: Sym, w, a: NONE, b: NONE, c: NONE, k: id as u64, k2: 0 });
        self.syms[id as usize].e = e;
        e
    }

    // ---------------------------------------------------------------- ranges
    fn compute_info(&self, n: &Node) -> Info {
        let w = n.w;
        let m = mask(w);
        if w > 64 {
            return Info { umin: 0, umax: u64::MAX, smin: i64::MIN, smax: i64::MAX, kz: 0 };
        }
        let full_smin = if w == 64 { i64::MIN } else { -(1i64 << (w - 1)) };
        let full_smax = if w == 64 { i64::MAX } else { (1i64 << (w - 1)) - 1 };
        let mut r = Info { umin: 0, umax: m, smin: full_smin, smax: full_smax, kz: !m };
        let g = |e: E| self.info[e as usize];
        let gw = |e: E| self.nodes[e as usize].w;
        let mut have_s = false;
        match n.op {
            Const => {
                r.umin = n.k;
                r.umax = n.k;
                r.smin = sx(n.k, w);
                r.smax = r.smin;
                r.kz = !n.k;
                return r;
            }
            Sym => {
                let s = &self.syms[n.k as usize];
                if !s.float {
                    if s.signed {
                        r.smin = s.lo as i64;
                        r.smax = s.hi as i64;
                        have_s = true;
                    } else {
                        r.umin = s.lo;
                        r.umax = s.hi;
                    }
                }
            }
            Add => {
                let (x, y) = (g(n.a), g(n.b));
                if let (Some(lo), Some(hi)) = (x.umin.checked_add(y.umin), x.umax.checked_add(y.umax)) {
                    if hi <= m {
                        r.umin = lo;
                        r.umax = hi;
                    }
                }
                if let (Some(lo), Some(hi)) = (x.smin.checked_add(y.smin), x.smax.checked_add(y.smax)) {
                    if lo >= full_smin && hi <= full_smax {
                        r.smin = lo;
                        r.smax = hi;
                        have_s = true;
                    }
                }
            }
            Mul => {
                let (x, y) = (g(n.a), g(n.b));
                if let Some(hi) = x.umax.checked_mul(y.umax) {
                    if hi <= m {
                        r.umax = hi;
                        r.umin = x.umin * y.umin;
                    }
                }
                let p = |a: i64, b: i64| a as i128 * b as i128;
                let cs = [p(x.smin, y.smin), p(x.smin, y.smax), p(x.smax, y.smin), p(x.smax, y.smax)];
                let lo = *cs.iter().min().unwrap();
                let hi = *cs.iter().max().unwrap();
                if lo >= full_smin as i128 && hi <= full_smax as i128 {
                    r.smin = lo as i64;
                    r.smax = hi as i64;
                    have_s = true;
                }
            }
            UDiv => {
                let (x, y) = (g(n.a), g(n.b));
                if y.umin > 0 {
                    r.umax = x.umax / y.umin;
                    r.umin = x.umin / y.umax;
                }
            }
            URem => {
                let (x, y) = (g(n.a), g(n.b));
                if y.umin > 0 {
                    r.umax = x.umax.min(y.umax - 1);
                }
            }
            SRem => {
                let (_x, y) = (g(n.a), g(n.b));
                if y.smin > 0 {
                    r.smin = -(y.smax - 1);
                    r.smax = y.smax - 1;
                    have_s = true;
                }
            }
            And => {
                let (x, y) = (g(n.a), g(n.b));
                r.umax = x.umax.min(y.umax);
                r.kz = x.kz | y.kz;
            }
            Or => {
                let (x, y) = (g(n.a), g(n.b));
                r.kz = x.kz & y.kz;
                r.umin = x.umin.max(y.umin);
            }
            Xor => {
                let (x, y) = (g(n.a), g(n.b));
                r.kz = x.kz & y.kz;
            }
            Shl => {
                if let Some(k) = self.cval(n.b) {
                    if k < w as u64 {
                        let x = g(n.a);
                        r.kz = (x.kz << k) | ((1u64 << k) - 1) | !m;
                    }
                }
            }
            LShr => {
                let x = g(n.a);
                r.umax = x.umax;
                if let Some(k) = self.cval(n.b) {
                    if k < 64 {
                        r.umax = x.umax >> k;
                        r.umin = x.umin >> k;
                    }
                }
            }
            AShr => {
                if let Some(k) = self.cval(n.b) {
                    let x = g(n.a);
                    let k = k.min(63);
                    r.smin = x.smin >> k;
                    r.smax = x.smax >> k;
                    have_s = true;
                }
            }
            Ite => {
                let (x, y) = (g(n.b), g(n.c));
                r.umin = x.umin.min(y.umin);
                r.umax = x.umax.max(y.umax);
                r.smin = x.smin.min(y.smin);
                r.smax = x.smax.max(y.smax);
                r.kz = x.kz & y.kz;
                have_s = true;
            }
            ZExt => {
                let x = g(n.a);
                r.umin = x.umin;
                r.umax = x.umax;
                r.kz = x.kz | !mask(gw(n.a));
            }
            SExt => {
                let x = g(n.a);
                r.smin = x.smin;
                r.smax = x.smax;
                have_s = true;
            }
            Extract => {
                if gw(n.a) <= 64 {
                    let x = g(n.a);
                    r.kz = (x.kz >> n.k) | !m;
                    if (x.umax >> n.k) <= m {
                        r.umax = x.umax >> n.k;
                        r.umin = x.umin >> n.k;
                    }
                    if n.k == 0 && x.smin >= full_smin && x.smax <= full_smax {
                        r.smin = x.smin;
                        r.smax = x.smax;
                        have_s = true;
                    }
                }
            }
            Concat => {
                let lw = gw(n.b);
                let (h, l) = (g(n.a), g(n.b));
                if lw < 64 {
                    r.umin = (h.umin << lw) + l.umin;
                    r.umax = (h.umax << lw) + l.umax;
                    r.kz = (h.kz << lw) | (l.kz & mask(lw)) | !m;
                    if h.smin > i64::MIN / 2 && (h.smin as i128) << lw >= full_smin as i128 {
                        r.smin = (((h.smin as i128) << lw) + l.umin as i128) as i64;
                        r.smax = (((h.smax as i128) << lw) + l.umax as i128) as i64;
                        have_s = true;
                    }
                }
            }
            F2S => {
                if let Some(fr) = self.fr[n.a as usize] {
                    if !fr.nan {
                        r.smin = (fr.lo as i64).clamp(full_smin, full_smax);
                        r.smax = (fr.hi as i64).clamp(full_smin, full_smax);
                        have_s = true;
                    }
                }
            }
            F2U => {
                if let Some(fr) = self.fr[n.a as usize] {
                    if !fr.nan {
                        r.umin = (fr.lo as u64).min(m);
                        r.umax = (fr.hi as u64).min(m);
                    }
                }
            }
            _ => {}
        }
        // combine
        r.umax = r.umax.min(!r.kz & m);
        if have_s {
            if r.smin >= 0 {
                r.umin = r.umin.max(r.smin as u64);
                r.umax = r.umax.min(r.smax as u64);
            } else if r.smax < 0 {
                r.umin = r.umin.max(r.smin as u64 & m);
                r.umax = r.umax.min(r.smax as u64 & m);
            }
        }
        if r.umax <= full_smax as u64 {
            r.smin = r.smin.max(r.umin as i64);
            r.smax = r.smax.min(r.umax as i64);
        } else if r.umin > full_smax as u64 {
            r.smin = r.smin.max(sx(r.umin, w));
            r.smax = r.smax.min(sx(r.umax, w));
        }
        if r.umin > r.umax || r.smin > r.smax {
            // an empty range can only come from dead code under contradictory ranges
            return Info { umin: 0, umax: m, smin: full_smin, smax: full_smax, kz: !m };
        }
        // top zero bits from umax
        let lz = if r.umax == 0 { u64::MAX } else { !(u64::MAX >> r.umax.leading_zeros()) };
        r.kz |= lz;
        r
    }

    pub fn frange(&mut self, e: E) -> FR {
        if let Some(r) = self.fr[e as usize] {
            return r;
        }
        let n = self.n(e);
        let w = n.w;
        let top = FR { lo: f64::NEG_INFINITY, hi: f64::INFINITY, nan: true };
        let r = match n.op {
            Const => {
                let v = fval(n.k, w);
                if v.is_nan() {
                    top
                } else {
                    FR { lo: v, hi: v, nan: false }
                }
            }
            Sym => {
                let s = &self.syms[n.k as usize];
                if s.float {
                    FR { lo: fval(s.lo, w), hi: fval(s.hi, w), nan: false }
                } else {
                    top
                }
            }
            Fx => {
                let i = self.inf(n.a);
                let s = pow2(-(n.k as i64 as i32));
                FR { lo: i.smin as f64 * s, hi: i.smax as f64 * s, nan: false }
            }
            FAdd | FSub | FMul | FDiv => {
                let x = self.frange(n.a);
                let y = self.frange(n.b);
                let fb = |v: f64| -> u64 {
                    if w == 32 {
                        (v as f32).to_bits() as u64
                    } else {
                        v.to_bits()
                    }
                };
                if x.nan || y.nan || (n.op == FDiv && y.lo <= 0.0 && y.hi >= 0.0) {
                    top
                } else if n.op == FMul && n.a == n.b {
                    let (l, h) = (x.lo.abs(), x.hi.abs());
                    let lo = if x.lo <= 0.0 && x.hi >= 0.0 { 0.0 } else { l.min(h) };
                    let hi = l.max(h);
                    FR { lo: fval(fop(FMul, w, fb(lo), fb(lo)), w), hi: fval(fop(FMul, w, fb(hi), fb(hi)), w), nan: false }
                } else {
                    let mut lo = f64::INFINITY;
                    let mut hi = f64::NEG_INFINITY;
                    let mut bad = false;
                    let pairs: Vec<(f64, f64)> = match n.op {
                        FAdd => vec![(x.lo, y.lo), (x.hi, y.hi)],
                        FSub => vec![(x.lo, y.hi), (x.hi, y.lo)],
                        _ => vec![(x.lo, y.lo), (x.lo, y.hi), (x.hi, y.lo), (x.hi, y.hi)],
                    };
                    for (p, q) in pairs {
                        let v = fval(fop(n.op, w, fb(p), fb(q)), w);
                        if v.is_nan() {
                            bad = true;
                        }
                        lo = lo.min(v);
                        hi = hi.max(v);
                    }
                    // NaN can also arise strictly inside when infinities are possible
                    let infs = |r: &FR| r.lo.is_infinite() || r.hi.is_infinite();
                    if bad || ((infs(&x) || infs(&y)) && n.op != FAdd && n.op != FSub) {
                        top
                    } else if infs(&x) && infs(&y) {
                        top
                    } else {
                        FR { lo, hi, nan: false }
                    }
                }
            }
            FSqrt => {
                let x = self.frange(n.a);
                if x.nan || x.lo < 0.0 {
                    top
                } else if w == 32 {
                    FR { lo: (x.lo as f32).sqrt() as f64, hi: (x.hi as f32).sqrt() as f64, nan: false }
                } else {
                    FR { lo: x.lo.sqrt(), hi: x.hi.sqrt(), nan: false }
                }
            }
            FCvt => {
                let x = self.frange(n.a);
                if x.nan {
                    top
                } else if w == 32 {
                    FR { lo: x.lo as f32 as f64, hi: x.hi as f32 as f64, nan: false }
                } else {
                    x
                }
            }
            S2F => {
                let i = self.inf(n.a);
                FR { lo: fval(i2f(i.smin, w), w), hi: fval(i2f(i.smax, w), w), nan: false }
            }
            U2F => {
                let i = self.inf(n.a);
                FR { lo: fval(u2f(i.umin, w), w), hi: fval(u2f(i.umax, w), w), nan: false }
            }
            Ite => {
                let x = self.frange(n.b);
                let y = self.frange(n.c);
                FR { lo: x.lo.min(y.lo), hi: x.hi.max(y.hi), nan: x.nan || y.nan }
            }
            Xor => {
                // sign flip
                if self.cval(n.b) == Some(1u64 << (w - 1)) {
                    let x = self.frange(n.a);
                    FR { lo: -x.hi, hi: -x.lo, nan: x.nan }
                } else {
                    top
                }
            }
            And => {
                if self.cval(n.b) == Some(mask(w) >> 1) {
                    let x = self.frange(n.a);
                    fabs_range(x)
                } else {
                    top
                }
            }
            ZExt => {
                // |x| canonicalised as zext(extract(x, 0..w-1))
                let m = self.n(n.a);
                if m.op == Extract && m.k == 0 && m.w == w - 1 && self.w(m.a) == w {
                    let x = self.frange(m.a);
                    fabs_range(x)
                } else {
                    top
                }
            }
            Or | Concat => top,
            FRound => {
                let x = self.frange(n.a);
                if x.nan {
                    top
                } else {
                    let f = |v: f64| fval(fround(n.k, if w == 32 { (v as f32).to_bits() as u64 } else { v.to_bits() }, w), w);
                    FR { lo: f(x.lo), hi: f(x.hi), nan: false }
                }
            }
            Libm => self.libm_range(&n),
            _ => top,
        };
        let r = self.aff_refine(e, &n, r);
        self.fr[e as usize] = Some(r);
        r
    }

    // ---------------------------------------------------------- affine forms
    /// the affine form of a finite float term; None if it may be NaN or infinite
    pub fn aff(&mut self, e: E) -> Option<Rc<Aff>> {
        self.frange(e);
        self.af[e as usize].clone()
    }
    pub fn leaf_range(&mut self, e: E) -> (f64, f64) {
        let w = self.w(e);
        if self.is_float_term(e) {
            debug_assert!(w == 32 || w == 64);
            let r = self.frange(e);
            (r.lo, r.hi)
        } else {
            let i = self.inf(e);
            (i.smin as f64, i.smax as f64)
        }
    }
    fn is_float_term(&self, e: E) -> bool {
        let n = self.n(e);
        match n.op {
            FAdd | FSub | FMul | FDiv | FSqrt | FCvt | S2F | U2F | Fx | FRound | Libm => true,
            Sym => self.syms[n.k as usize].float,
            _ => n.w == 32,
        }
    }
    pub fn aff_bounds(&mut self, a: &Aff) -> (f64, f64) {
        let (mut lo, mut hi, mut mag) = (a.c, a.c, a.c.abs());
        for &(e, k) in &a.v {
            let (l, h) = self.leaf_range(e);
            let (p, q) = (k * l, k * h);
            lo += p.min(q);
            hi += p.max(q);
            mag += p.abs().max(q.abs());
        }
        let slop = a.err + mag * 1e-14;
        (lo - slop, hi + slop)
    }
    fn aff_lin(&mut self, a: &Aff, ka: f64, b: &Aff, kb: f64) -> Aff {
        let mut v: Vec<(E, f64)> = Vec::with_capacity(a.v.len() + b.v.len());
        let (mut i, mut j) = (0, 0);
        let mut slop = (a.c * ka).abs() + (b.c * kb).abs();
        while i < a.v.len() || j < b.v.len() {
            let x = a.v.get(i);
            let y = b.v.get(j);
            let (e, k, m) = match (x, y) {
                (Some(x), Some(y)) if x.0 == y.0 => {
                    i += 1;
                    j += 1;
                    (x.0, x.1 * ka + y.1 * kb, (x.1 * ka).abs() + (y.1 * kb).abs())
                }
                (Some(x), Some(y)) if x.0 > y.0 => {
                    j += 1;
                    (y.0, y.1 * kb, (y.1 * kb).abs())
                }
                (Some(x), _) => {
                    i += 1;
                    (x.0, x.1 * ka, (x.1 * ka).abs())
                }
                (None, Some(y)) => {
                    j += 1;
                    (y.0, y.1 * kb, (y.1 * kb).abs())
                }
                _ => unreachable!(),
            };
            let (l, h) = self.leaf_range(e);
            slop += m * l.abs().max(h.abs());
            if k != 0.0 {
                v.push((e, k));
            }
        }
        Aff { v, c: a.c * ka + b.c * kb, err: a.err * ka.abs() + b.err * kb.abs() + slop * 1e-15 }
    }
    /// leave out terms so small that they are within what an error bound may hold
    fn aff_trim(&mut self, a: &mut Aff, scale: f64) {
        let mut i = 0;
        while i < a.v.len() {
            let (e, k) = a.v[i];
            let (l, h) = self.leaf_range(e);
            let half = (h - l) / 2.0 * k.abs();
            if half <= scale {
                a.c += k * ((l + h) / 2.0);
                a.err += half * 1.0000001 + (k * (l.abs() + h.abs())).abs() * 1e-15;
                a.v.remove(i);
            } else {
                i += 1;
            }
        }
    }
    /// the form of a float that was cut to a whole number
    fn cut(&mut self, x: E) -> Option<Aff> {
        let mut x = x;
        while self.n(x).op == SExt {
            x = self.n(x).a;
        }
        let m = self.n(x);
        if m.op != F2S || (m.w != 32 && m.w != 64) {
            return None;
        }
        let fr = self.frange(m.a);
        let lim = pow2(m.w as i32 - 2);
        if fr.nan || !(fr.lo > -lim && fr.hi < lim) {
            return None;
        }
        let mut f = (*self.aff(m.a)?).clone();
        f.err += 1.0;
        Some(f)
    }
    /// the affine form of `e`, whose interval is `r`; returns the better range
    fn aff_refine(&mut self, e: E, n: &Node, r: FR) -> FR {
        let w = n.w;
        if r.nan || !r.lo.is_finite() || !r.hi.is_finite() || (w != 32 && w != 64) || !self.use_fx {
            return r;
        }
        let ulp = if w == 32 { 2f64.powi(-24) } else { 2f64.powi(-53) };
        let tiny = if w == 32 { 1e-44 } else { 1e-307 };
        let one = Aff { v: vec![], c: 0.0, err: 0.0 };
        let sub = |s: &Self, x: E| s.af[x as usize].clone();
        let mut exact = false;
        let whole = match n.op {
            FAdd | FSub | FMul | FCvt => self.exact(e),
            _ => None,
        };
        let form: Option<Aff> = match n.op {
            _ if whole.is_some() => {
                exact = true;
                let (a, k) = whole.unwrap();
                self.aff_int(a, pow2(-k))
            }
            Const => {
                exact = true;
                Some(Aff { v: vec![], c: fval(n.k, w), err: 0.0 })
            }
            Fx => {
                exact = true;
                match if n.k == 0 { self.cut(n.a) } else { None } {
                    Some(f) => Some(f),
                    None => self.aff_int(n.a, pow2(-(n.k as i64 as i32))),
                }
            }
            FAdd | FSub => match (sub(self, n.a), sub(self, n.b)) {
                (Some(x), Some(y)) => Some(self.aff_lin(&x, 1.0, &y, if n.op == FAdd { 1.0 } else { -1.0 })),
                _ => None,
            },
            FMul | FDiv => match (sub(self, n.a), sub(self, n.b)) {
                (Some(x), Some(y)) => {
                    // one side (nearly) constant
                    let (x, y, ry) = if n.op == FMul && x.v.is_empty() && !y.v.is_empty() { (y, x, n.a) } else { (x, y, n.b) };
                    if y.v.is_empty() {
                        let other = if ry == n.a { n.b } else { n.a };
                        let rx = self.frange(other);
                        let mx = rx.lo.abs().max(rx.hi.abs());
                        if n.op == FMul {
                            let mut f = self.aff_lin(&x, y.c, &one, 0.0);
                            f.err += mx * y.err;
                            Some(f)
                        } else if y.c.abs() > y.err * 2.0 {
                            // 1/(c+d) = 1/c - d/(c(c+d))
                            let mut f = self.aff_lin(&x, 1.0 / y.c, &one, 0.0);
                            f.err += mx * (y.err / (y.c.abs() * (y.c.abs() - y.err)) + 1e-15 / y.c.abs());
                            Some(f)
                        } else {
                            None
                        }
                    } else {
                        None
                    }
                }
                _ => None,
            },
            FCvt => sub(self, n.a).map(|x| (*x).clone()),
            S2F => self.cut(n.a),
            FRound => match self.aff(n.a) {
                Some(x) => {
                    let mut f = (*x).clone();
                    f.err += 1.0;
                    Some(f)
                }
                None => None,
            },
            Xor if self.cval(n.b) == Some(1u64 << (w - 1)) => {
                exact = true;
                match self.aff(n.a) {
                    Some(x) => Some(self.aff_lin(&x, -1.0, &one, 0.0)),
                    None => None,
                }
            }
            _ => None,
        };
        let mut r = r;
        let form = match form {
            Some(mut f) if f.v.len() <= 16 => {
                let (lo, hi) = self.aff_bounds(&f);
                if !exact {
                    f.err += lo.abs().max(hi.abs()) * ulp * 1.0001 + tiny;
                    let m = r.lo.abs().max(r.hi.abs());
                    self.aff_trim(&mut f, (m * ulp).min(1e-6));
                }
                let (lo, hi) = self.aff_bounds(&f);
                r.lo = r.lo.max(lo);
                r.hi = r.hi.min(hi);
                if r.lo > r.hi {
                    // only rounding can make the two bounds cross
                    std::mem::swap(&mut r.lo, &mut r.hi);
                }
                f
            }
            _ => {
                if self.is_float_term(e) && r.hi - r.lo > (r.lo.abs() + r.hi.abs()) * 1e-6 {
                    Aff { v: vec![(e, 1.0)], c: 0.0, err: 0.0 }
                } else {
                    let c = (r.lo + r.hi) / 2.0;
                    Aff { v: vec![], c, err: (r.hi - r.lo) / 2.0 * 1.0000001 + c.abs() * 1e-15 }
                }
            }
        };
        self.af[e as usize] = Some(Rc::new(form));
        r
    }
    /// a signed 64-bit whole-number term times a scale
    fn aff_int(&mut self, a: E, scale: f64) -> Option<Aff> {
        let mut acc = Vec::new();
        let mut k = 0u64;
        self.lin(a, 1, &mut acc, &mut k, 0);
        acc.sort_unstable_by_key(|x| x.0);
        let mut v: Vec<(E, i64)> = Vec::new();
        for (e, c) in acc {
            match v.last_mut() {
                Some(l) if l.0 == e => l.1 = l.1.wrapping_add(c as i64),
                _ => v.push((e, c as i64)),
            }
        }
        v.retain(|x| x.1 != 0);
        let mut m = (k as i64 as i128).abs();
        for &(e, c) in &v {
            let i = self.inf(e);
            m += (c as i128).abs() * (i.smin as i128).abs().max((i.smax as i128).abs());
        }
        if m >= 1 << 62 || self.w(a) != 64 {
            return Some(Aff { v: vec![(a, scale)], c: 0.0, err: 0.0 });
        }
        Some(Aff { v: v.into_iter().map(|(e, c)| (e, c as f64 * scale)).collect(), c: k as i64 as f64 * scale, err: 0.0 })
    }
    /// decide or simplify a comparison of a-b with zero through the affine form
    fn aff_cmp(&mut self, op: Op, a: E, b: E) -> Option<E> {
        let (x, y) = (self.aff(a)?, self.aff(b)?);
        if x.v.is_empty() && y.v.is_empty() && x.err == 0.0 && y.err == 0.0 {
            return None;
        }
        let d = self.aff_lin(&x, 1.0, &y, -1.0);
        let (lo, hi) = self.aff_bounds(&d);
        match op {
            FLt if hi < 0.0 => return Some(self.tru()),
            FLt if lo >= 0.0 => return Some(self.fls()),
            FLe if hi <= 0.0 => return Some(self.tru()),
            FLe if lo > 0.0 => return Some(self.fls()),
            FEq if hi < 0.0 || lo > 0.0 => return Some(self.fls()),
            _ => {}
        }
        if d.v.is_empty() || d.v.len() > 8 || d.v.iter().any(|x| self.w(x.0) != 64 || self.is_float_term(x.0)) {
            return None;
        }
        // d = l * (whole-number combination) + c, up to a small error
        let (_, kmax) = *d.v.iter().max_by(|p, q| p.1.abs().partial_cmp(&q.1.abs()).unwrap()).unwrap();
        for q in 1..=16i64 {
            let l = kmax.abs() / q as f64;
            let mut err = d.err;
            let mut ks = Vec::new();
            let mut mag = d.c.abs();
            for &(e, k) in &d.v {
                let m = (k / l).round();
                let (lo, hi) = self.leaf_range(e);
                let big = lo.abs().max(hi.abs());
                err += (k - m * l).abs() * big;
                mag += (m * l).abs() * big;
                ks.push((e, m as i64));
            }
            err += mag * 1e-14;
            let t = -d.c / l;
            let dl = err / l;
            if dl >= 0.49 || t.abs() > 1e12 {
                continue;
            }
            if (t - dl).floor() != (t + dl).floor() || (t - dl).floor() == t - dl {
                continue;
            }
            if op == FEq {
                return Some(self.fls());
            }
            let mut s = self.con(0, 64);
            for (e, k) in ks {
                let kc = self.con(k as u64, 64);
                let p = self.mul(e, kc);
                s = self.add(s, p);
            }
            let f = self.con(t.floor() as i64 as u64, 64);
            // d < 0  <=>  combination < t (both signs of the comparison agree: never equal)
            return Some(self.sle(s, f));
        }
        None
    }
    /// whole-number conditions under which a comparison surely holds and
    /// surely fails
    pub fn aff_lemma(&mut self, op: Op, a: E, b: E) -> Option<(E, E)> {
        if let Some(r) = self.squares_lemma(op, a, b) {
            return Some(r);
        }
        let (x, y) = (self.aff(a)?, self.aff(b)?);
        let d = self.aff_lin(&x, 1.0, &y, -1.0);
        let (below, above) = self.aff_sides(&d)?;
        if op == FEq {
            let no = self.or(below, above);
            let f = self.fls();
            return Some((f, no));
        }
        Some((below, above))
    }
    /// x*x + y*y + z*z against a constant: each alone
    fn squares_lemma(&mut self, op: Op, a: E, b: E) -> Option<(E, E)> {
        let flip = self.cval(a).is_some();
        let (s, k) = if flip { (b, a) } else { (a, b) };
        let w = self.w(s);
        let k = fval(self.cval(k)?, w);
        if op == FEq || !(k > 1e-30 && k < 1e30) {
            return None;
        }
        let mut xs = Vec::new();
        let mut stack = vec![s];
        while let Some(x) = stack.pop() {
            let n = self.n(x);
            match n.op {
                FAdd => {
                    stack.push(n.a);
                    stack.push(n.b);
                }
                FMul if n.a == n.b => xs.push(n.a),
                Const if n.k == 0 => {}
                _ => return None,
            }
        }
        if xs.is_empty() || xs.len() > 4 {
            return None;
        }
        let t1 = (k / xs.len() as f64).sqrt() * (1.0 - 1e-5);
        let t2 = k.sqrt() * (1.0 + 1e-5);
        let mut near = self.tru();
        let mut far = self.fls();
        for x in xs {
            let f = self.aff(x)?;
            for sg in [1.0, -1.0] {
                for (t, is_near) in [(t1, true), (t2, false)] {
                    let c = Aff { v: vec![], c: t, err: 0.0 };
                    let d = self.aff_lin(&f, sg, &c, -1.0);
                    let (lo, hi) = self.aff_bounds(&d);
                    let (below, above) = if hi < 0.0 {
                        (self.tru(), self.fls())
                    } else if lo > 0.0 {
                        (self.fls(), self.tru())
                    } else {
                        match self.aff_sides(&d) {
                            Some(r) => r,
                            None => (self.fls(), self.fls()),
                        }
                    };
                    if is_near {
                        near = self.and(near, below);
                    } else {
                        far = self.or(far, above);
                    }
                }
            }
        }
        Some(if flip { (far, near) } else { (near, far) })
    }
    /// whole-number conditions under which a form is surely below, above zero
    fn aff_sides(&mut self, d: &Aff) -> Option<(E, E)> {
        if d.v.is_empty() || d.v.len() > 12 || d.v.iter().any(|x| self.w(x.0) != 64 || self.is_float_term(x.0)) {
            return None;
        }
        let mut mag = d.c.abs() + d.err;
        let mut lm = 1.0f64;
        for &(e, k) in &d.v {
            let (lo, hi) = self.leaf_range(e);
            let big = lo.abs().max(hi.abs());
            mag += k.abs() * big;
            lm += big;
        }
        let scale = pow2((40.0 - mag.max(1e-9).log2()).floor() as i32);
        if lm > 1e12 {
            return None;
        }
        let mut s = self.con((d.c * scale).round() as i64 as u64, 64);
        let mut err = d.err * scale + 1.0;
        for &(e, k) in &d.v {
            let m = (k * scale).round();
            let (lo, hi) = self.leaf_range(e);
            err += (k * scale - m).abs() * lo.abs().max(hi.abs());
            let kc = self.con(m as i64 as u64, 64);
            let p = self.mul(e, kc);
            s = self.add(s, p);
        }
        err += mag * scale * 1e-13 + 1.0;
        let e = err.ceil() as i64;
        let (pe, ne) = (self.con(e as u64, 64), self.con((-e) as u64, 64));
        let below = self.slt(s, ne);
        let above = self.slt(pe, s);
        Some((below, above))
    }

    /// x1, y1, x2, y2 of a comparison of two atan2 as whole-number forms with an
    /// error, the two of a vector scaled alike; (terms, constant, error, magnitude)
    pub fn atan_forms(&mut self, a: E, b: E) -> Option<Vec<(Vec<(E, i64)>, i64, i64, i64)>> {
        let (na, nb) = (self.n(a), self.n(b));
        if na.op != Libm || nb.op != Libm || na.k != 0 || nb.k != 0 {
            return None;
        }
        let mut out = Vec::new();
        for v in [[na.b, na.a], [nb.b, nb.a]] {
            let f = [self.aff(v[0])?, self.aff(v[1])?];
            let mut mag = 1e-9f64;
            for x in &f {
                if x.v.iter().any(|l| self.w(l.0) != 64 || self.is_float_term(l.0)) || x.v.len() > 12 {
                    return None;
                }
                let (lo, hi) = self.aff_bounds(x);
                mag = mag.max(lo.abs()).max(hi.abs());
            }
            let scale = pow2((22.0 - mag.log2()).floor() as i32);
            for x in &f {
                let mut err = x.err * scale + 2.0;
                let mut c = x.c * scale;
                let mut t = Vec::new();
                for &(e, k) in &x.v {
                    let k = k * scale;
                    // about the middle of the leaf's range
                    let (lo, hi) = self.leaf_range(e);
                    let mid = ((lo + hi) / 2.0).round();
                    let half = (hi - lo) / 2.0 + 1.0;
                    let q = if k.abs() * half < 1.0 { 0.0 } else { (k * 1024.0).round() / 1024.0 };
                    err += (k - q).abs() * half;
                    c += (k - q) * mid;
                    if q != 0.0 {
                        t.push((e, (q * 1024.0) as i64));
                    }
                }
                out.push((t, (c * 1024.0).round() as i64, (err * 1024.0).ceil() as i64, (mag * scale * 1024.0).ceil() as i64));
            }
        }
        Some(out)
    }

    /// compare atan2(y1,x1) with atan2(y2,x2), both near affine forms, by
    /// subdividing the ranges of the leaves; decided only if the answer is
    /// the same everywhere and the angles are clearly apart
    fn atan_cmp(&mut self, op: Op, a: E, b: E) -> Option<E> {
        if let Some(r) = self.atans.get(&(op, a, b)) {
            return *r;
        }
        let r = self.atan_cmp1(op, a, b);
        if r.is_none() && std::env::var("QS_ATAN").is_ok() {
            let (na, nb) = (self.n(a), self.n(b));
            for (i, e) in [na.b, na.a, nb.b, nb.a].iter().enumerate() {
                match self.aff(*e) {
                    Some(f) => eprintln!("atan {} c={} err={} {:?}", i, f.c, f.err, f.v.iter().map(|x| (x.1, self.show(x.0, 5), self.leaf_range(x.0))).collect::<Vec<_>>()),
                    None => eprintln!("atan {} no form: {}", i, self.show(*e, 6)),
                }
            }
        }
        self.atans.insert((op, a, b), r);
        r
    }
    fn atan_cmp1(&mut self, op: Op, a: E, b: E) -> Option<E> {
        let (na, nb) = (self.n(a), self.n(b));
        let mut forms = Vec::new();
        let mut leaves: Vec<E> = Vec::new();
        for e in [na.b, na.a, nb.b, nb.a] {
            let f = self.aff(e)?;
            for x in &f.v {
                if !leaves.contains(&x.0) {
                    leaves.push(x.0);
                }
            }
            forms.push(f);
        }
        let n = leaves.len();
        if n > 6 {
            return None;
        }
        let mut root = Vec::new();
        let mut whole = Vec::new();
        for &l in &leaves {
            root.push(self.leaf_range(l));
            whole.push(!self.is_float_term(l));
        }
        // a point on the axis itself, up to rounding: its angle is near 0, or
        // near pi or -pi by the sign of y alone
        for k in [1usize, 3] {
            let (y, x) = (&forms[k], &forms[k - 1]);
            let (ylo, yhi) = self.aff_bounds(y);
            if !(ylo <= 0.0 && yhi >= 0.0) {
                continue;
            }
            let (_, xhi) = self.aff_bounds(x);
            let dev = ylo.abs().max(yhi.abs()) / xhi.abs() * 2.0 + 1e-5;
            let (ox, oy) = (&forms[if k == 1 { 2 } else { 0 }].clone(), &forms[if k == 1 { 3 } else { 1 }].clone());
            let (oxlo, _) = self.aff_bounds(ox);
            let (oylo, oyhi) = self.aff_bounds(oy);
            if xhi < 0.0 && dev < 0.1 {
                // the other one is clear of the axis
                let big = {
                    let (a, b) = self.aff_bounds(ox);
                    a.abs().max(b.abs())
                };
                if !(oxlo > 0.0 || oylo > big * 2.0 * dev || -oyhi > big * 2.0 * dev) {
                    continue;
                }
                let ye = if k == 1 { na.a } else { nb.a };
                if !self.never_neg_zero(ye, 8) {
                    continue;
                }
                if op == FEq {
                    return Some(self.fls());
                }
                let w = self.w(ye);
                let z = self.con(0, w);
                let neg = self.fcmp(FLt, ye, z);
                return Some(if k == 1 { neg } else { self.not(neg) });
            }
        }
        // coefficients per leaf
        let co: Vec<Vec<f64>> = forms
            .iter()
            .map(|f| leaves.iter().map(|l| f.v.iter().find(|x| x.0 == *l).map_or(0.0, |x| x.1)).collect())
            .collect();
        let mut work = vec![root];
        let mut answer: Option<bool> = None; // first angle smaller
        let mut count = 0;
        while let Some(bx) = work.pop() {
            count += 1;
            if count > 3000 {
                return None;
            }
            let mid: Vec<f64> = bx.iter().map(|r| (r.0 + r.1) / 2.0).collect();
            let rad: Vec<f64> = bx.iter().map(|r| (r.1 - r.0) / 2.0).collect();
            let mut c = [0.0; 4];
            let mut lo = [0.0; 4];
            let mut hi = [0.0; 4];
            let mut er = [0.0; 4];
            let mut mx = [0.0; 4];
            for k in 0..4 {
                let mut v = forms[k].c;
                let mut r = forms[k].err;
                let mut mag = v.abs();
                for i in 0..n {
                    v += co[k][i] * mid[i];
                    r += co[k][i].abs() * rad[i];
                    mag += (co[k][i] * mid[i]).abs();
                }
                er[k] = forms[k].err + mag * 1e-14;
                c[k] = v;
                lo[k] = v - r - mag * 1e-14;
                hi[k] = v + r + mag * 1e-14;
                mx[k] = lo[k].abs().max(hi[k].abs());
            }
            // [x1, y1, x2, y2]
            let half = (lo[0] > 0.0 && (lo[3] > 0.0 || hi[3] < 0.0)) || (lo[2] > 0.0 && (lo[1] > 0.0 || hi[1] < 0.0));
            let less = if lo[1] > 0.0 && hi[3] < 0.0 {
                Some(false)
            } else if hi[1] < 0.0 && lo[3] > 0.0 {
                Some(true)
            } else if half || (lo[1] > 0.0 && lo[3] > 0.0) || (hi[1] < 0.0 && hi[3] < 0.0) || (lo[0] > 0.0 && lo[2] > 0.0) {
                // x1*y2 - x2*y1 around the middle
                let c0 = c[0] * c[3] - c[2] * c[1];
                let mut slack = er[0] * mx[3] + er[3] * mx[0] + er[2] * mx[1] + er[1] * mx[2];
                slack += (mx[0] * mx[3] + mx[1] * mx[2]) * 1e-13;
                let (mut l, mut h) = (c0, c0);
                for i in 0..n {
                    let g = (c[0] * co[3][i] + c[3] * co[0][i] - c[2] * co[1][i] - c[1] * co[2][i]).abs() * rad[i];
                    l -= g;
                    h += g;
                    for j in i..n {
                        let mut q = co[0][i] * co[3][j] - co[2][i] * co[1][j];
                        if i != j {
                            q += co[0][j] * co[3][i] - co[2][j] * co[1][i];
                            let g = q.abs() * rad[i] * rad[j];
                            l -= g;
                            h += g;
                        } else {
                            let g = q * rad[i] * rad[i];
                            l += g.min(0.0);
                            h += g.max(0.0);
                        }
                    }
                }
                l -= slack;
                h += slack;
                // sine of the angle between them
                let m = (mx[0] * mx[0] + mx[1] * mx[1]).sqrt() * (mx[2] * mx[2] + mx[3] * mx[3]).sqrt();
                // with one in the right half plane and the other in the upper
                // (lower) one, only a positive (negative) sine settles it
                let same = (lo[1] > 0.0 && lo[3] > 0.0) || (hi[1] < 0.0 && hi[3] < 0.0) || (lo[0] > 0.0 && lo[2] > 0.0);
                let up = (lo[0] > 0.0 && lo[3] > 0.0) || (lo[2] > 0.0 && hi[1] < 0.0);
                let dn = (lo[0] > 0.0 && hi[3] < 0.0) || (lo[2] > 0.0 && lo[1] > 0.0);
                if l > m * 1e-5 && !same && !up {
                    None
                } else if h < -m * 1e-5 && !same && !dn {
                    None
                } else if l > m * 1e-5 {
                    Some(true)
                } else if h < -m * 1e-5 {
                    Some(false)
                } else {
                    None
                }
            } else {
                None
            };
            match less {
                Some(x) => {
                    if answer.is_some() && answer != Some(x) {
                        return None;
                    }
                    answer = Some(x);
                }
                None => {
                    // halve the leaf that matters most
                    let mut best = None;
                    let mut bw = 0.0;
                    for i in 0..n {
                        if whole[i] && bx[i].1 - bx[i].0 < 1.0 {
                            continue;
                        }
                        let wdt = rad[i] * (0..4).map(|k| co[k][i].abs()).fold(0.0, f64::max);
                        if wdt > bw {
                            bw = wdt;
                            best = Some(i);
                        }
                    }
                    let i = best?;
                    let m = if whole[i] { mid[i].floor() } else { mid[i] };
                    let (mut p, mut q) = (bx.clone(), bx);
                    p[i].1 = m;
                    q[i].0 = if whole[i] { m + 1.0 } else { m };
                    work.push(p);
                    work.push(q);
                }
            }
        }
        let r = match op {
            FEq => false,
            _ => answer?,
        };
        Some(self.con(r as u64, 1))
    }

    fn libm_range(&mut self, n: &Node) -> FR {
        let top = FR { lo: f64::NEG_INFINITY, hi: f64::INFINITY, nan: true };
        let x = self.frange(n.a);
        if x.nan {
            return top;
        }
        let slack = |v: f64| v.abs() * 1e-6 + 1e-30;
        match n.k {
            0 => {
                // atan2(y = a, x = b)
                let y = x;
                let x = self.frange(n.b);
                if x.nan {
                    return top;
                }
                let pi = 3.1415930f64;
                if y.lo < 0.0 && y.hi >= 0.0 && x.lo <= 0.0 || (y.lo == 0.0 && x.lo <= 0.0) || (y.hi == 0.0 && x.lo <= 0.0) {
                    return FR { lo: -pi, hi: pi, nan: false };
                }
                // branch cut not touched: extremes are at corners
                let mut lo = f64::INFINITY;
                let mut hi = f64::NEG_INFINITY;
                for a in [y.lo, y.hi] {
                    for b in [x.lo, x.hi] {
                        let v = a.atan2(b);
                        lo = lo.min(v);
                        hi = hi.max(v);
                    }
                }
                FR { lo: lo - slack(lo), hi: hi + slack(hi), nan: false }
            }
            1 | 2 => {
                if x.lo.is_infinite() || x.hi.is_infinite() {
                    return top;
                }
                FR { lo: -1.0, hi: 1.0, nan: false }
            }
            6 => FR { lo: x.lo.atan() - slack(1.0), hi: x.hi.atan() + slack(1.0), nan: false },
            _ => top,
        }
    }

    pub fn symset(&mut self, e: E) -> Rc<[u32]> {
        if let Some(s) = &self.symsets[e as usize] {
            return s.clone();
        }
        // iterative post-order to avoid deep recursion
        let mut stack = vec![e];
        while let Some(&x) = stack.last() {
            if self.symsets[x as usize].is_some() {
                stack.pop();
                continue;
            }
            let n = self.n(x);
            let mut ready = true;
            for k in [n.a, n.b, n.c] {
                if k != NONE && self.symsets[k as usize].is_none() {
                    stack.push(k);
                    ready = false;
                }
            }
            if !ready {
                continue;
            }
            let mut v: Vec<u32> = Vec::new();
            let mut only: Option<Rc<[u32]>> = None;
            if n.op == Sym {
                v.push(n.k as u32);
            }
            for k in [n.a, n.b, n.c] {
                if k != NONE {
                    let s = self.symsets[k as usize].as_ref().unwrap();
                    if !s.is_empty() {
                        if v.is_empty() && only.is_none() {
                            only = Some(s.clone());
                        } else {
                            if let Some(o) = only.take() {
                                v.extend_from_slice(&o);
                            }
                            v.extend_from_slice(s);
                        }
                    }
                }
            }
            let r: Rc<[u32]> = if let Some(o) = only {
                o
            } else {
                v.sort_unstable();
                v.dedup();
                Rc::from(v)
            };
            self.symsets[x as usize] = Some(r);
            stack.pop();
        }
        self.symsets[e as usize].clone().unwrap()
    }

    // ---------------------------------------------------------- bit-vectors
    /// linear decomposition: sum of coeff*term + const (mod 2^w)
    fn lin(&self, e: E, coef: u64, acc: &mut Vec<(E, u64)>, k: &mut u64, depth: u32) {
        let n = self.n(e);
        match n.op {
            Const => *k = k.wrapping_add(coef.wrapping_mul(n.k)),
            Add if depth < 64 => {
                self.lin(n.a, coef, acc, k, depth + 1);
                self.lin(n.b, coef, acc, k, depth + 1);
            }
            Mul if self.cval(n.b).is_some() => {
                let c = self.cval(n.b).unwrap();
                self.lin(n.a, coef.wrapping_mul(c), acc, k, depth + 1);
            }
            Concat if n.w <= 64 && self.cval(n.b).is_some() => {
                let h = self.n(n.a);
                let lw = self.w(n.b);
                if h.op == Extract && h.k == 0 && self.w(h.a) == n.w {
                    *k = k.wrapping_add(coef.wrapping_mul(self.cval(n.b).unwrap()));
                    self.lin(h.a, coef.wrapping_mul(1u64 << lw), acc, k, depth + 1);
                } else {
                    acc.push((e, coef));
                }
            }
            // a sum without carries
            Concat if n.w <= 64 && self.cval(n.a).is_some() => {
                let l = self.n(n.b);
                if l.op == Extract && l.k == 0 && self.w(l.a) == n.w && self.info[l.a as usize].umax >> l.w == 0 {
                    *k = k.wrapping_add(coef.wrapping_mul(self.cval(n.a).unwrap() << l.w));
                    self.lin(l.a, coef, acc, k, depth + 1);
                } else {
                    acc.push((e, coef));
                }
            }
            _ => acc.push((e, coef)),
        }
    }
    pub fn add(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.c128(a), self.c128(b)) {
            return self.con128(x.wrapping_add(y), w);
        }
        if w > 64 {
            if self.c128(b) == Some(0) {
                return a;
            }
            if self.c128(a) == Some(0) {
                return b;
            }
            return self.mk(Add, w, a.min(b), a.max(b), NONE, 0);
        }
        if self.cval(a) == Some(0) {
            return b;
        }
        if self.cval(b) == Some(0) {
            return a;
        }
        let (ia, ib) = (self.inf(a), self.inf(b));
        // (a sum stays one, for its form)
        let sum = w == 64 && (self.n(a).op == Add || self.n(b).op == Add);
        if w > 1 && !sum && (!ia.kz & !ib.kz & mask(w)) == 0 {
            return self.or(a, b);
        }
        if w == 1 {
            return self.xor(a, b);
        }
        let mut acc = Vec::new();
        let mut k = 0u64;
        self.lin(a, 1, &mut acc, &mut k, 0);
        self.lin(b, 1, &mut acc, &mut k, 0);
        self.lin_build(acc, k, w)
    }
    fn lin_build(&mut self, mut acc: Vec<(E, u64)>, k: u64, w: u16) -> E {
        let m = mask(w);
        acc.sort_unstable_by_key(|x| x.0);
        let mut out: Vec<(E, u64)> = Vec::with_capacity(acc.len());
        for (e, c) in acc {
            if let Some(l) = out.last_mut() {
                if l.0 == e {
                    l.1 = l.1.wrapping_add(c);
                    continue;
                }
            }
            out.push((e, c));
        }
        let k = k & m;
        let mut r = NONE;
        for (e, c) in out {
            let c = c & m;
            if c == 0 {
                continue;
            }
            let x = if c == 1 {
                e
            } else {
                let ce = self.con(c, w);
                self.mk(Mul, w, e, ce, NONE, 0)
            };
            r = if r == NONE { x } else { self.mk(Add, w, r, x, NONE, 0) };
        }
        if r == NONE {
            return self.con(k, w);
        }
        if k != 0 {
            let ke = self.con(k, w);
            r = self.mk(Add, w, r, ke, NONE, 0);
        }
        r
    }
    pub fn sub(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if a == b {
            return self.con128(0, w);
        }
        if let (Some(x), Some(y)) = (self.c128(a), self.c128(b)) {
            return self.con128(x.wrapping_sub(y), w);
        }
        if w > 64 {
            if self.c128(b) == Some(0) {
                return a;
            }
            let m1 = self.con128(u128::MAX, w);
            let nb = self.mul(b, m1);
            return self.add(a, nb);
        }
        if self.cval(b) == Some(0) {
            return a;
        }
        if w == 1 {
            return self.xor(a, b);
        }
        let mut acc = Vec::new();
        let mut k = 0u64;
        self.lin(a, 1, &mut acc, &mut k, 0);
        self.lin(b, u64::MAX, &mut acc, &mut k, 0);
        self.lin_build(acc, k, w)
    }
    pub fn mul(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        let (a, b) = if self.nodes[a as usize].op == Const { (b, a) } else { (a, b) };
        if let (Some(x), Some(y)) = (self.c128(a), self.c128(b)) {
            return self.con128(x.wrapping_mul(y), w);
        }
        if let Some(c) = self.c128(b) {
            if c == 0 {
                return b;
            }
            if c == 1 {
                return a;
            }
            if w <= 64 {
                if (c as u64).is_power_of_two() && !self.is_lin(a) {
                    let k = self.con((c as u64).trailing_zeros() as u64, w);
                    return self.shl(a, k);
                }
                let mut acc = Vec::new();
                let mut k = 0u64;
                self.lin(a, c as u64, &mut acc, &mut k, 0);
                return self.lin_build(acc, k, w);
            }
        }
        if w == 1 {
            return self.and(a, b);
        }
        self.mk(Mul, w, a.min(b), a.max(b), NONE, 0)
    }
    fn is_lin(&self, a: E) -> bool {
        let n = self.n(a);
        matches!(n.op, Add | Mul | SExt)
    }
    pub fn divrem(&mut self, op: Op, a: E, b: E) -> E {
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.c128(a), self.c128(b)) {
            if y != 0 {
                let r = match op {
                    UDiv => x / y,
                    URem => x % y,
                    SDiv => sx128(x, w).wrapping_div(sx128(y, w)) as u128,
                    _ => sx128(x, w).wrapping_rem(sx128(y, w)) as u128,
                };
                return self.con128(r, w);
            }
        }
        if w <= 64 {
            let (ia, ib) = (self.inf(a), self.inf(b));
            // signed ops on values known non-negative
            let op = match op {
                SDiv if ia.smin >= 0 && ib.smin > 0 => UDiv,
                SRem if ia.smin >= 0 && ib.smin > 0 => URem,
                o => o,
            };
            if let Some(c) = self.cval(b) {
                if c.is_power_of_two() {
                    let k = c.trailing_zeros() as u64;
                    if op == UDiv {
                        let ke = self.con(k, w);
                        return self.lshr(a, ke);
                    }
                    if op == URem {
                        let m = self.con(c - 1, w);
                        return self.and(a, m);
                    }
                }
                if op == URem && ia.umax < c {
                    return a;
                }
                if op == UDiv && ia.umax < c {
                    return self.con(0, w);
                }
            }
            return self.mk(op, w, a, b, NONE, 0);
        }
        self.mk(op, w, a, b, NONE, 0)
    }
    pub fn and(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if a == b {
            return a;
        }
        let (a, b) = if self.nodes[a as usize].op == Const { (b, a) } else { (a, b) };
        if let (Some(x), Some(y)) = (self.c128(a), self.c128(b)) {
            return self.con128(x & y, w);
        }
        if let Some(c) = self.c128(b) {
            if c == 0 {
                return b;
            }
            if c == mask128(w) {
                return a;
            }
            if w <= 64 {
                let c = c as u64;
                let ia = self.inf(a);
                if !ia.kz & mask(w) & !c == 0 {
                    return a;
                }
                if !ia.kz & c & mask(w) == 0 {
                    return self.con(0, w);
                }
                // contiguous mask -> extract / concat
                let tz = c.trailing_zeros() as u16;
                let len = (c >> tz).trailing_ones() as u16;
                if (c >> tz) >> len.min(63) == 0 || len == 64 {
                    let x = self.extract(a, tz, len);
                    let x = if tz > 0 {
                        let z = self.con(0, tz);
                        self.concat(x, z)
                    } else {
                        x
                    };
                    return self.zext(x, w);
                }
                // and distributes over ite of constants
                let n = self.n(a);
                if n.op == And {
                    if let Some(c2) = self.cval(n.b) {
                        let cc = self.con(c & c2, w);
                        return self.and(n.a, cc);
                    }
                }
            }
        }
        if w == 1 {
            // absorption with negation
            if self.is_not(a) == Some(b) || self.is_not(b) == Some(a) {
                return self.con(0, 1);
            }
        }
        self.push_ite2(And, a, b).unwrap_or_else(|| self.mk(And, w, a.min(b), a.max(b), NONE, 0))
    }
    /// op(ite(c,k1,k2), k) with constants
    fn push_ite2(&mut self, op: Op, a: E, b: E) -> Option<E> {
        let n = self.n(a);
        if n.op == Ite && n.w > 1 && self.nodes[b as usize].op == Const && self.nodes[n.b as usize].op == Const && self.nodes[n.c as usize].op == Const {
            let x = self.binop(op, n.b, b);
            let y = self.binop(op, n.c, b);
            return Some(self.ite(n.a, x, y));
        }
        None
    }
    pub fn binop(&mut self, op: Op, a: E, b: E) -> E {
        match op {
            Add => self.add(a, b),
            Mul => self.mul(a, b),
            And => self.and(a, b),
            Or => self.or(a, b),
            Xor => self.xor(a, b),
            Shl => self.shl(a, b),
            LShr => self.lshr(a, b),
            AShr => self.ashr(a, b),
            UDiv | SDiv | URem | SRem => self.divrem(op, a, b),
            Eq => self.eq(a, b),
            Ult => self.ult(a, b),
            Ule => self.ule(a, b),
            Slt => self.slt(a, b),
            Sle => self.sle(a, b),
            FAdd | FSub | FMul | FDiv => self.farith(op, a, b),
            FLt | FLe | FEq | FUno => self.fcmp(op, a, b),
            _ => unreachable!(),
        }
    }
    pub fn is_not(&self, a: E) -> Option<E> {
        let n = self.n(a);
        if n.w == 1 && n.op == Xor && self.cval(n.b) == Some(1) {
            Some(n.a)
        } else {
            None
        }
    }
    pub fn or(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if a == b {
            return a;
        }
        let (a, b) = if self.nodes[a as usize].op == Const { (b, a) } else { (a, b) };
        if let (Some(x), Some(y)) = (self.c128(a), self.c128(b)) {
            return self.con128(x | y, w);
        }
        if let Some(c) = self.c128(b) {
            if c == 0 {
                return a;
            }
            if c == mask128(w) {
                return b;
            }
        }
        if w == 1 {
            if self.is_not(a) == Some(b) || self.is_not(b) == Some(a) {
                return self.con(1, 1);
            }
            return self.mk(Or, 1, a.min(b), a.max(b), NONE, 0);
        }
        // disjoint pieces -> concat
        if let Some(r) = self.try_concat(a, b) {
            return r;
        }
        if let Some(r) = self.try_concat(b, a) {
            return r;
        }
        self.mk(Or, w, a.min(b), a.max(b), NONE, 0)
    }
    /// hi has >= k low zero bits and lo fits in k bits
    fn try_concat(&mut self, hi: E, lo: E) -> Option<E> {
        let w = self.w(hi);
        if w > 64 {
            return None;
        }
        let kh = self.inf(hi).kz.trailing_ones() as u16;
        let lw = (64 - (!self.inf(lo).kz & mask(w)).leading_zeros()) as u16;
        if kh == 0 || lw == 0 || lw > kh || kh >= w {
            return None;
        }
        let h = self.extract(hi, kh, w - kh);
        let l = self.extract(lo, 0, kh);
        Some(self.concat(h, l))
    }
    pub fn xor(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if a == b {
            return self.con128(0, w);
        }
        let (a, b) = if self.nodes[a as usize].op == Const { (b, a) } else { (a, b) };
        if let (Some(x), Some(y)) = (self.c128(a), self.c128(b)) {
            return self.con128(x ^ y, w);
        }
        if let Some(c) = self.c128(b) {
            if c == 0 {
                return a;
            }
            let n = self.n(a);
            if n.op == Xor {
                if let Some(c2) = self.c128(n.b) {
                    let k = self.con128(c ^ c2, w);
                    return self.xor(n.a, k);
                }
            }
            if w == 1 {
                match n.op {
                    Ult => return self.ule(n.b, n.a),
                    Ule => return self.ult(n.b, n.a),
                    Slt => return self.sle(n.b, n.a),
                    Sle => return self.slt(n.b, n.a),
                    _ => {}
                }
                return self.mk(Xor, 1, a, b, NONE, 0);
            }
            if let Some(r) = self.push_ite2(Xor, a, b) {
                return r;
            }
            return self.mk(Xor, w, a, b, NONE, 0);
        }
        if w > 1 && w <= 64 && (!self.inf(a).kz & !self.inf(b).kz & mask(w)) == 0 {
            return self.or(a, b);
        }
        self.mk(Xor, w, a.min(b), a.max(b), NONE, 0)
    }
    pub fn not(&mut self, a: E) -> E {
        let w = self.w(a);
        let m = self.con128(mask128(w), w);
        self.xor(a, m)
    }
    pub fn shl(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let Some(k) = self.c128(b) {
            if k >= w as u128 {
                return self.con128(0, w);
            }
            let k = k as u16;
            if k == 0 {
                return a;
            }
            let x = self.extract(a, 0, w - k);
            let z = self.con128(0, k);
            return self.concat(x, z);
        }
        self.mk(Shl, w, a, b, NONE, 0)
    }
    pub fn lshr(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let Some(k) = self.c128(b) {
            if k >= w as u128 {
                return self.con128(0, w);
            }
            let k = k as u16;
            if k == 0 {
                return a;
            }
            let x = self.extract(a, k, w - k);
            return self.zext(x, w);
        }
        self.mk(LShr, w, a, b, NONE, 0)
    }
    pub fn ashr(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let Some(k) = self.c128(b) {
            let k = k.min(w as u128 - 1) as u16;
            if k == 0 {
                return a;
            }
            let x = self.extract(a, k, w - k);
            return self.sext(x, w);
        }
        self.mk(AShr, w, a, b, NONE, 0)
    }
    pub fn extract(&mut self, a: E, lo: u16, w: u16) -> E {
        let n = self.n(a);
        if lo == 0 && w == n.w {
            return a;
        }
        // the sign of a sum or product is that of the number, unless it is zero
        if self.use_fx && w == 1 && lo + 1 == n.w && matches!(n.op, FAdd | FSub | FMul) && !self.frange(a).nan {
            let z = self.con(0, n.w);
            let below = self.fcmp(FLt, a, z);
            let zero = self.fcmp(FEq, a, z);
            // a comparison, so that it can be left open: copysign(1, a) < 0
            let sign = self.mk(Extract, 1, a, NONE, NONE, lo as u64);
            let one = if n.w == 32 { 0x3f80_0000 } else { 0x3ff0_0000_0000_0000 };
            let one = self.con(one, n.w - 1);
            let one = self.concat(sign, one);
            let raw = self.mk(FLt, 1, one, z, NONE, 0);
            let open = self.and(zero, raw);
            return self.or(below, open);
        }
        match n.op {
            Const => {
                let c = self.c128(a).unwrap();
                return self.con128(c >> lo, w);
            }
            Extract => return self.extract(n.a, lo + n.k as u16, w),
            ZExt => {
                let iw = self.w(n.a);
                if lo >= iw {
                    return self.con128(0, w);
                }
                if lo + w <= iw {
                    return self.extract(n.a, lo, w);
                }
                let x = self.extract(n.a, lo, iw - lo);
                return self.zext(x, w);
            }
            SExt => {
                let iw = self.w(n.a);
                if lo + w <= iw {
                    return self.extract(n.a, lo, w);
                }
                if lo < iw {
                    let x = self.extract(n.a, lo, iw - lo);
                    return self.sext(x, w);
                }
            }
            Concat => {
                let lw = self.w(n.b);
                if lo + w <= lw {
                    return self.extract(n.b, lo, w);
                }
                if lo >= lw {
                    return self.extract(n.a, lo - lw, w);
                }
                let l = self.extract(n.b, lo, lw - lo);
                let h = self.extract(n.a, 0, lo + w - lw);
                return self.concat(h, l);
            }
            And | Or | Xor => {
                if n.w > w && (self.nodes[n.b as usize].op == Const || self.nodes[n.a as usize].op == Const) {
                    let x = self.extract(n.a, lo, w);
                    let y = self.extract(n.b, lo, w);
                    return self.binop(n.op, x, y);
                }
            }
            Ite => {
                if self.nodes[n.b as usize].op == Const || self.nodes[n.c as usize].op == Const {
                    let x = self.extract(n.b, lo, w);
                    let y = self.extract(n.c, lo, w);
                    return self.ite(n.a, x, y);
                }
            }
            Add | Mul if lo == 0 && n.w <= 64 => {
                let x = self.extract(n.a, 0, w);
                let y = self.extract(n.b, 0, w);
                return self.binop(n.op, x, y);
            }
            _ => {}
        }
        if n.w <= 64 && (!self.inf(a).kz >> lo) & mask(w) == 0 {
            return self.con(0, w);
        }
        self.mk(Extract, w, a, NONE, NONE, lo as u64)
    }
    pub fn zext(&mut self, a: E, w: u16) -> E {
        let n = self.n(a);
        if n.w == w {
            return a;
        }
        match n.op {
            Const => {
                let c = self.c128(a).unwrap();
                self.con128(c, w)
            }
            ZExt => self.zext(n.a, w),
            _ => self.mk(ZExt, w, a, NONE, NONE, 0),
        }
    }
    pub fn sext(&mut self, a: E, w: u16) -> E {
        let n = self.n(a);
        if n.w == w {
            return a;
        }
        match n.op {
            Const => {
                let c = self.c128(a).unwrap();
                let s = sx128(c, n.w) as u128;
                return self.con128(s, w);
            }
            SExt => return self.sext(n.a, w),
            ZExt => return self.zext(a, w),
            _ => {}
        }
        if n.w <= 64 && self.inf(a).smin >= 0 {
            return self.zext(a, w);
        }
        self.mk(SExt, w, a, NONE, NONE, 0)
    }
    pub fn concat(&mut self, h: E, l: E) -> E {
        let (nh, nl) = (self.n(h), self.n(l));
        let w = nh.w + nl.w;
        if let (Some(x), Some(y)) = (self.c128(h), self.c128(l)) {
            return self.con128(x << nl.w | y, w);
        }
        if self.c128(h) == Some(0) {
            return self.zext(l, w);
        }
        if nh.op == ZExt {
            let x = self.concat(nh.a, l);
            return self.zext(x, w);
        }
        // adjacent extracts
        if nh.op == Extract && nl.op == Extract && nh.a == nl.a && nh.k == nl.k + nl.w as u64 {
            return self.extract(nh.a, nl.k as u16, w);
        }
        // h == extract(x, lw, ..) and l == x when l is entire low... (l is Sym narrower) not applicable
        // right-assoc normal form: concat(h, concat(m, l)); merge h with m
        if nl.op == Concat {
            let m = nl.a;
            let nm = self.n(m);
            if nh.op == Extract && nm.op == Extract && nh.a == nm.a && nh.k == nm.k + nm.w as u64 {
                let x = self.extract(nh.a, nm.k as u16, nh.w + nm.w);
                return self.concat(x, nl.b);
            }
            if let (Some(x), Some(y)) = (self.c128(h), self.c128(m)) {
                let c = self.con128(x << nm.w | y, nh.w + nm.w);
                return self.concat(c, nl.b);
            }
        }
        if nh.op == Concat {
            // concat(concat(a,b), l) -> concat(a, concat(b,l))
            let x = self.concat(nh.b, l);
            return self.concat(nh.a, x);
        }
        // sign replication: concat(ite(..)) left alone
        self.mk(Concat, w, h, l, NONE, 0)
    }
    pub fn ite(&mut self, c: E, a: E, b: E) -> E {
        if a == b {
            return a;
        }
        if let Some(k) = self.cval(c) {
            return if k == 1 { a } else { b };
        }
        if let Some(x) = self.is_not(c) {
            return self.ite(x, b, a);
        }
        let w = self.w(a);
        if w == 1 {
            match (self.cval(a), self.cval(b)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), _) => return self.or(c, b),
                (Some(0), _) => {
                    let nc = self.not(c);
                    return self.and(nc, b);
                }
                (_, Some(0)) => return self.and(c, a),
                (_, Some(1)) => {
                    let nc = self.not(c);
                    return self.or(nc, a);
                }
                _ => {}
            }
        }
        let na = self.n(a);
        let a = if na.op == Ite && na.a == c { na.b } else { a };
        let nb = self.n(b);
        let b = if nb.op == Ite && nb.a == c { nb.c } else { b };
        if a == b {
            return a;
        }
        // ite(x==y, x, y) = y
        let nc = self.n(c);
        if nc.op == Eq && ((nc.a == a && nc.b == b) || (nc.a == b && nc.b == a)) {
            return b;
        }
        self.mk(Ite, w, c, a, b, 0)
    }
    pub fn eq(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if a == b {
            return self.tru();
        }
        let (a, b) = if self.nodes[a as usize].op == Const { (b, a) } else { (a, b) };
        if let (Some(x), Some(y)) = (self.c128(a), self.c128(b)) {
            return self.con((x == y) as u64, 1);
        }
        if w == 1 {
            if let Some(k) = self.cval(b) {
                return if k == 1 { a } else { self.not(a) };
            }
            let x = self.xor(a, b);
            return self.not(x);
        }
        let n = self.n(a);
        if w <= 64 {
            let (ia, ib) = (self.inf(a), self.inf(b));
            if ia.umax < ib.umin || ib.umax < ia.umin || ia.smax < ib.smin || ib.smax < ia.smin {
                return self.fls();
            }
            if let Some(c) = self.cval(b) {
                if ia.kz & c != 0 {
                    return self.fls();
                }
                match n.op {
                    Add => {
                        if let Some(k) = self.cval(n.b) {
                            let kk = self.con(c.wrapping_sub(k), w);
                            return self.eq(n.a, kk);
                        }
                        // x + (-1)*y == 0  ->  x == y
                        if c == 0 {
                            let ny = self.n(n.b);
                            if ny.op == Mul && self.cval(ny.b) == Some(mask(w)) {
                                return self.eq(n.a, ny.a);
                            }
                            let nx = self.n(n.a);
                            if nx.op == Mul && self.cval(nx.b) == Some(mask(w)) {
                                return self.eq(n.b, nx.a);
                            }
                        }
                    }
                    Xor => {
                        if let Some(k) = self.cval(n.b) {
                            let kk = self.con(c ^ k, w);
                            return self.eq(n.a, kk);
                        }
                        if c == 0 {
                            return self.eq(n.a, n.b);
                        }
                    }
                    ZExt => {
                        let iw = self.w(n.a);
                        let kk = self.con(c, iw);
                        return self.eq(n.a, kk);
                    }
                    SExt => {
                        let iw = self.w(n.a);
                        let kk = self.con(c, iw);
                        return self.eq(n.a, kk);
                    }
                    Concat => {
                        let lw = self.w(n.b);
                        let hw = self.w(n.a);
                        let hc = self.con(c >> lw, hw);
                        let lc = self.con(c, lw);
                        let x = self.eq(n.a, hc);
                        let y = self.eq(n.b, lc);
                        return self.and(x, y);
                    }
                    Ite => {
                        let (cx, cy) = (self.cval(n.b), self.cval(n.c));
                        if cx.is_some() || cy.is_some() {
                            let x = self.eq(n.b, b);
                            let y = self.eq(n.c, b);
                            return self.ite(n.a, x, y);
                        }
                    }
                    _ => {}
                }
            } else {
                let nb = self.n(b);
                if n.op == ZExt && nb.op == ZExt && self.w(n.a) == self.w(nb.a) {
                    return self.eq(n.a, nb.a);
                }
                if n.op == SExt && nb.op == SExt && self.w(n.a) == self.w(nb.a) {
                    return self.eq(n.a, nb.a);
                }
            }
        }
        self.mk(Eq, 1, a.min(b), a.max(b), NONE, 0)
    }
    pub fn ult(&mut self, a: E, b: E) -> E {
        if a == b {
            return self.fls();
        }
        if let (Some(x), Some(y)) = (self.c128(a), self.c128(b)) {
            return self.con((x < y) as u64, 1);
        }
        let w = self.w(a);
        if w <= 64 {
            let (ia, ib) = (self.inf(a), self.inf(b));
            if ia.umax < ib.umin {
                return self.tru();
            }
            if ia.umin >= ib.umax {
                return self.fls();
            }
            let (na, nb) = (self.n(a), self.n(b));
            if na.op == ZExt && nb.op == ZExt && self.w(na.a) == self.w(nb.a) {
                return self.ult(na.a, nb.a);
            }
            if na.op == ZExt && nb.op == Const {
                let iw = self.w(na.a);
                if nb.k <= mask(iw) {
                    let k = self.con(nb.k, iw);
                    return self.ult(na.a, k);
                }
            }
            if nb.op == ZExt && na.op == Const {
                let iw = self.w(nb.a);
                if na.k <= mask(iw) {
                    let k = self.con(na.k, iw);
                    return self.ult(k, nb.a);
                }
            }
            if self.cval(b) == Some(1) {
                let z = self.con(0, w);
                return self.eq(a, z);
            }
            if w == 1 {
                let x = self.not(a);
                return self.and(x, b);
            }
        }
        self.mk(Ult, 1, a, b, NONE, 0)
    }
    pub fn ule(&mut self, a: E, b: E) -> E {
        if a == b {
            return self.tru();
        }
        if let (Some(x), Some(y)) = (self.c128(a), self.c128(b)) {
            return self.con((x <= y) as u64, 1);
        }
        let w = self.w(a);
        if w <= 64 {
            let (ia, ib) = (self.inf(a), self.inf(b));
            if ia.umax <= ib.umin {
                return self.tru();
            }
            if ia.umin > ib.umax {
                return self.fls();
            }
            let (na, nb) = (self.n(a), self.n(b));
            if na.op == ZExt && nb.op == ZExt && self.w(na.a) == self.w(nb.a) {
                return self.ule(na.a, nb.a);
            }
            if na.op == ZExt && nb.op == Const {
                let iw = self.w(na.a);
                if nb.k <= mask(iw) {
                    let k = self.con(nb.k, iw);
                    return self.ule(na.a, k);
                }
            }
            if nb.op == ZExt && na.op == Const {
                let iw = self.w(nb.a);
                if na.k <= mask(iw) {
                    let k = self.con(na.k, iw);
                    return self.ule(k, nb.a);
                }
            }
            if self.cval(b) == Some(0) {
                return self.eq(a, b);
            }
            if w == 1 {
                let x = self.not(a);
                return self.or(x, b);
            }
        }
        self.mk(Ule, 1, a, b, NONE, 0)
    }
    pub fn slt(&mut self, a: E, b: E) -> E {
        if a == b {
            return self.fls();
        }
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.c128(a), self.c128(b)) {
            return self.con((sx128(x, w) < sx128(y, w)) as u64, 1);
        }
        if w <= 64 {
            let (ia, ib) = (self.inf(a), self.inf(b));
            if ia.smax < ib.smin {
                return self.tru();
            }
            if ia.smin >= ib.smax {
                return self.fls();
            }
            if ia.smin >= 0 && ib.smin >= 0 {
                return self.ult(a, b);
            }
            if let Some(r) = self.slin(a, b, true) {
                return r;
            }
        }
        self.mk(Slt, 1, a, b, NONE, 0)
    }
    pub fn sle(&mut self, a: E, b: E) -> E {
        if a == b {
            return self.tru();
        }
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.c128(a), self.c128(b)) {
            return self.con((sx128(x, w) <= sx128(y, w)) as u64, 1);
        }
        if w <= 64 {
            let (ia, ib) = (self.inf(a), self.inf(b));
            if ia.smax <= ib.smin {
                return self.tru();
            }
            if ia.smin > ib.smax {
                return self.fls();
            }
            if ia.smin >= 0 && ib.smin >= 0 {
                return self.ule(a, b);
            }
            if let Some(r) = self.slin(a, b, false) {
                return r;
            }
        }
        self.mk(Sle, 1, a, b, NONE, 0)
    }
    /// compare via the difference when it provably does not overflow
    fn slin(&mut self, a: E, b: E, strict: bool) -> Option<E> {
        let w = self.w(a);
        if w != 64 {
            return None;
        }
        let (ia, ib) = (self.inf(a), self.inf(b));
        let lim = 1i64 << 60;
        if ia.smin < -lim || ia.smax > lim || ib.smin < -lim || ib.smax > lim {
            return None;
        }
        let na = self.n(a);
        let nb = self.n(b);
        if !matches!(na.op, Add | Mul) && !matches!(nb.op, Add | Mul) {
            return None;
        }
        if nb.op == Const && nb.k == 0 {
            return None;
        }
        let d = self.sub(a, b);
        let id = self.inf(d);
        if id.smin < -lim || id.smax > lim {
            // interval of the normalised difference is not usable
            return None;
        }
        let z = self.con(0, 64);
        Some(if strict {
            if id.smax < 0 {
                self.tru()
            } else if id.smin >= 0 {
                self.fls()
            } else {
                self.mk(Slt, 1, d, z, NONE, 0)
            }
        } else if id.smax <= 0 {
            self.tru()
        } else if id.smin > 0 {
            self.fls()
        } else {
            self.mk(Sle, 1, d, z, NONE, 0)
        })
    }

    // ------------------------------------------------------ floating point
    /// exact integer n and scale k with value == n*2^-k (sign of zero unspecified)
    fn fxval(&mut self, e: E) -> Option<(E, i32)> {
        if let Some(r) = self.fxv.get(&e) {
            return *r;
        }
        let n = self.n(e);
        let w = n.w;
        let r = match n.op {
            Const => match dyadic(fval(n.k, w)) {
                Some((m, k)) => Some((self.con(m as u64, 64), k)),
                None => None,
            },
            Fx => Some((n.a, n.k as i64 as i32)),
            Xor if self.cval(n.b) == Some(1u64 << (w - 1)) => match self.fxval(n.a) {
                Some((a, k)) => {
                    let z = self.con(0, 64);
                    Some((self.sub(z, a), k))
                }
                None => None,
            },
            _ => None,
        };
        self.fxv.insert(e, r);
        r
    }
    /// the exact value of a float term, up to the sign of a zero, as a whole
    /// number times 2^-k: sums and products whose result needs no rounding
    fn exact(&mut self, e: E) -> Option<(E, i32)> {
        if let Some(r) = self.exv.get(&e) {
            return *r;
        }
        let mut r = self.fxval(e);
        if r.is_none() {
            let n = self.n(e);
            let w = n.w;
            let v = match n.op {
                FAdd | FSub => match (self.exact(n.a), self.exact(n.b)) {
                    (Some(x), Some(y)) => self.align(x, y).map(|(p, q, k)| (if n.op == FAdd { self.add(p, q) } else { self.sub(p, q) }, k)),
                    _ => None,
                },
                FMul => match (self.exact(n.a), self.exact(n.b)) {
                    (Some(x), Some(y)) => {
                        let (x, y) = if self.cval(x.0).is_some() { (y, x) } else { (x, y) };
                        match self.cval(y.0) {
                            Some(m) => {
                                let i = self.inf(x.0);
                                let m = m as i64;
                                if (i.smin as i128 * m as i128).abs() < 1 << 60 && (i.smax as i128 * m as i128).abs() < 1 << 60 {
                                    let c = self.con(m as u64, 64);
                                    let p = self.mul(x.0, c);
                                    Some((p, if m == 0 { 0 } else { x.1 + y.1 }))
                                } else {
                                    None
                                }
                            }
                            None => None,
                        }
                    }
                    _ => None,
                },
                FCvt => self.exact(n.a),
                Xor if self.cval(n.b) == Some(1u64 << (w - 1)) => match self.exact(n.a) {
                    Some((a, k)) => {
                        let z = self.con(0, 64);
                        Some((self.sub(z, a), k))
                    }
                    None => None,
                },
                _ => None,
            };
            if let Some((a, k)) = v {
                let i = self.inf(a);
                let l = Self::limit(w);
                if i.smin > -l && i.smax < l && k >= -30 && k <= 60 {
                    r = Some((a, k));
                }
            }
        }
        self.exv.insert(e, r);
        r
    }
    /// a term with exact value that cannot be -0 is its value
    fn settle(&mut self, e: E) -> E {
        if self.use_fx && self.n(e).op != Const && self.n(e).op != Fx {
            if let Some((a, k)) = self.exact(e) {
                let i = self.inf(a);
                if i.smin > 0 || i.smax < 0 || self.never_neg_zero(e, 8) {
                    let w = self.w(e);
                    if let Some(r) = self.mkfx(a, k, w) {
                        return r;
                    }
                }
            }
        }
        e
    }
    /// is the zero of this term, if any, surely +0 ?
    fn pos_zero(&mut self, e: E) -> bool {
        let n = self.n(e);
        match n.op {
            Fx => true,
            Const => n.k != 1u64 << (n.w - 1),
            _ => {
                let r = self.frange(e);
                !r.nan && (r.lo > 0.0 || r.hi < 0.0)
            }
        }
    }
    /// can the term surely not be -0 ?
    fn never_neg_zero(&mut self, e: E, depth: u32) -> bool {
        if self.pos_zero(e) {
            return true;
        }
        let n = self.n(e);
        depth > 0
            && match n.op {
                FAdd => self.never_neg_zero(n.a, depth - 1) || self.never_neg_zero(n.b, depth - 1),
                FSub => self.never_neg_zero(n.a, depth - 1),
                _ => false,
            }
    }
    fn nonzero(&mut self, e: E) -> bool {
        let r = self.frange(e);
        !r.nan && (r.lo > 0.0 || r.hi < 0.0)
    }
    fn zeroish(&mut self, e: E) -> bool {
        let r = self.frange(e);
        !r.nan && r.lo == 0.0 && r.hi == 0.0
    }
    fn limit(w: u16) -> i64 {
        if w == 32 {
            1 << 24
        } else {
            1 << 53
        }
    }
    /// build Fx(a,k) if representable exactly
    fn mkfx(&mut self, a: E, k: i32, w: u16) -> Option<E> {
        let i = self.inf(a);
        let l = Self::limit(w);
        if i.smin <= -l || i.smax >= l || k < -30 || k > 60 {
            return None;
        }
        if let Some(c) = self.cval(a) {
            let v = c as i64 as f64 * pow2(-k);
            let bits = if w == 32 { (v as f32).to_bits() as u64 } else { v.to_bits() };
            return Some(self.con(bits, w));
        }
        Some(self.mk(Fx, w, a, NONE, NONE, k as i64 as u64))
    }
    pub fn fx_sym(&mut self, a: E, k: i32, w: u16) -> E {
        self.mkfx(a, k, w).expect("grid symbol out of the exact range")
    }
    fn align(&mut self, x: (E, i32), y: (E, i32)) -> Option<(E, E, i32)> {
        let k = x.1.max(y.1);
        let dx = k - x.1;
        let dy = k - y.1;
        if dx > 40 || dy > 40 {
            return None;
        }
        let lim = 1i128 << 60;
        let f = |s: &mut Self, v: E, d: i32| -> Option<E> {
            if d == 0 {
                return Some(v);
            }
            let i = s.inf(v);
            if (i.smin as i128) << d < -lim || (i.smax as i128) << d > lim {
                return None;
            }
            let c = s.con(1u64 << d, 64);
            Some(s.mul(v, c))
        };
        let a = f(self, x.0, dx)?;
        let b = f(self, y.0, dy)?;
        Some((a, b, k))
    }
    pub fn fneg(&mut self, a: E) -> E {
        let w = self.w(a);
        let n = self.n(a);
        if n.op == Fx {
            let i = self.inf(n.a);
            if i.smin > 0 || i.smax < 0 {
                let z = self.con(0, 64);
                let m = self.sub(z, n.a);
                if let Some(r) = self.mkfx(m, n.k as i64 as i32, w) {
                    return r;
                }
            }
        }
        let s = self.con(1u64 << (w - 1), w);
        self.xor(a, s)
    }
    pub fn fabs(&mut self, a: E) -> E {
        let w = self.w(a);
        let n = self.n(a);
        if n.op == Fx {
            let i = self.inf(n.a);
            if i.smin >= 0 {
                return a;
            }
            if i.smax < 0 {
                return self.fneg(a);
            }
            let z = self.con(0, 64);
            let m = self.sub(z, n.a);
            let c = self.slt(n.a, z);
            let v = self.ite(c, m, n.a);
            if let Some(r) = self.mkfx(v, n.k as i64 as i32, w) {
                return r;
            }
        }
        let r = self.frange(a);
        if !r.nan && r.lo > 0.0 {
            return a;
        }
        if !r.nan && r.hi < 0.0 {
            return self.fneg(a);
        }
        if n.op == Xor && self.cval(n.b) == Some(1u64 << (w - 1)) {
            return self.fabs(n.a);
        }
        let m = self.con(mask(w) >> 1, w);
        self.and(a, m)
    }
    pub fn farith(&mut self, op: Op, a: E, b: E) -> E {
        let e = self.farith1(op, a, b);
        self.settle(e)
    }
    fn farith1(&mut self, op: Op, a: E, b: E) -> E {
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.cval(a), self.cval(b)) {
            return self.con(fop(op, w, x, y), w);
        }
        let sign = 1u64 << (w - 1);
        if self.use_fx {
            match op {
                FAdd => {
                    if self.cval(b) == Some(sign) {
                        return a; // x + -0
                    }
                    if self.cval(a) == Some(sign) {
                        return b;
                    }
                    if self.zeroish(a) && self.pos_zero(b) {
                        return b;
                    }
                    if self.zeroish(b) && self.pos_zero(a) {
                        return a;
                    }
                    // x + (-y)
                    if let Some(y) = self.is_fneg(b) {
                        return self.farith(FSub, a, y);
                    }
                    if let (Some(x), Some(y)) = (self.fxval(a), self.fxval(b)) {
                        if self.pos_zero(a) || self.pos_zero(b) {
                            if let Some((p, q, k)) = self.align(x, y) {
                                let s = self.add(p, q);
                                if let Some(r) = self.mkfx(s, k, w) {
                                    return r;
                                }
                            }
                        }
                    }
                }
                FSub => {
                    if self.cval(b) == Some(0) {
                        return a; // x - +0
                    }
                    if a == b {
                        let r = self.frange(a);
                        if !r.nan && r.lo.is_finite() && r.hi.is_finite() {
                            return self.con(0, w);
                        }
                    }
                    if self.zeroish(b) && self.pos_zero(a) {
                        return a;
                    }
                    if self.zeroish(a) && self.nonzero(b) {
                        return self.fneg(b);
                    }
                    if let Some(y) = self.is_fneg(b) {
                        return self.farith(FAdd, a, y);
                    }
                    if let (Some(x), Some(y)) = (self.fxval(a), self.fxval(b)) {
                        if self.pos_zero(a) {
                            if let Some((p, q, k)) = self.align(x, y) {
                                let s = self.sub(p, q);
                                if let Some(r) = self.mkfx(s, k, w) {
                                    return r;
                                }
                            }
                        }
                    }
                }
                FMul => {
                    let (a, b) = if self.nodes[a as usize].op == Const { (b, a) } else { (a, b) };
                    if let Some(cb) = self.cval(b) {
                        let c = fval(cb, w);
                        if c == 1.0 {
                            return a;
                        }
                        if c == -1.0 {
                            return self.fneg(a);
                        }
                        if c == 0.0 {
                            let r = self.frange(a);
                            if !r.nan && r.lo.is_finite() && r.hi.is_finite() {
                                if r.lo > 0.0 {
                                    return b;
                                }
                                if r.hi < 0.0 {
                                    return self.con(cb ^ sign, w);
                                }
                            }
                        } else if let Some((n, k)) = self.fxval(a) {
                            if let Some((m, j)) = dyadic(c) {
                                if c > 0.0 && self.pos_zero(a) || self.nonzero(a) {
                                    let i = self.inf(n);
                                    if (i.smin as i128 * m as i128).abs() < 1 << 60 && (i.smax as i128 * m as i128).abs() < 1 << 60 {
                                        let me = self.con(m as u64, 64);
                                        let p = self.mul(n, me);
                                        if let Some(r) = self.mkfx(p, k + j, w) {
                                            return r;
                                        }
                                    }
                                }
                            }
                            if c < 0.0 {
                                let pc = self.con(cb ^ sign, w);
                                let p = self.farith(FMul, a, pc);
                                return self.fneg(p);
                            }
                        }
                    }
                    // canonical signs
                    if let Some(x) = self.is_fneg(a) {
                        let p = self.farith(FMul, x, b);
                        return self.fneg(p);
                    }
                    if let Some(y) = self.is_fneg(b) {
                        let p = self.farith(FMul, a, y);
                        return self.fneg(p);
                    }
                    return self.mk(FMul, w, a.min(b), a.max(b), NONE, 0);
                }
                FDiv => {
                    if let Some(cb) = self.cval(b) {
                        let c = fval(cb, w);
                        if c == 1.0 {
                            return a;
                        }
                        if c == -1.0 {
                            return self.fneg(a);
                        }
                        // division by a power of two is multiplication by its inverse
                        if c != 0.0 && c.is_finite() {
                            let inv = 1.0 / c;
                            let m = c.abs().log2();
                            if m.fract() == 0.0 && m.abs() < 100.0 {
                                let ib = if w == 32 { (inv as f32).to_bits() as u64 } else { inv.to_bits() };
                                let ie = self.con(ib, w);
                                return self.farith(FMul, a, ie);
                            }
                        }
                    }
                    let ra = self.frange(a);
                    let rb = self.frange(b);
                    let fin = !ra.nan && !rb.nan && ra.lo.is_finite() && ra.hi.is_finite() && rb.lo.is_finite() && rb.hi.is_finite();
                    if fin && (rb.lo > 0.0 || rb.hi < 0.0) {
                        let one = if w == 32 { 1f32.to_bits() as u64 } else { 1f64.to_bits() };
                        if a == b {
                            return self.con(one, w);
                        }
                        let na = self.fneg(a);
                        if na == b {
                            return self.con(one ^ sign, w);
                        }
                        if self.cval(a) == Some(0) {
                            return self.con(if rb.lo > 0.0 { 0 } else { sign }, w);
                        }
                        if self.cval(a) == Some(sign) {
                            return self.con(if rb.lo > 0.0 { sign } else { 0 }, w);
                        }
                    }
                    if let Some(x) = self.is_fneg(a) {
                        let p = self.farith(FDiv, x, b);
                        return self.fneg(p);
                    }
                    if let Some(y) = self.is_fneg(b) {
                        let p = self.farith(FDiv, a, y);
                        return self.fneg(p);
                    }
                }
                _ => {}
            }
        }
        if op == FAdd {
            return self.mk(op, w, a.min(b), a.max(b), NONE, 0);
        }
        self.mk(op, w, a, b, NONE, 0)
    }
    fn is_fneg(&mut self, a: E) -> Option<E> {
        let n = self.n(a);
        if n.op == Xor && self.cval(n.b) == Some(1u64 << (n.w - 1)) {
            Some(n.a)
        } else {
            None
        }
    }
    pub fn fsqrt(&mut self, a: E) -> E {
        let w = self.w(a);
        if let Some(x) = self.cval(a) {
            return self.con(fop(FSqrt, w, x, 0), w);
        }
        let n = self.n(a);
        // sqrt(x*x) == |x| in round-to-nearest binary arithmetic without over/underflow
        if n.op == FMul && n.a == n.b {
            let r = self.frange(n.a);
            let m = r.lo.abs().max(r.hi.abs());
            let big = if w == 32 { 1e18 } else { 1e150 };
            let small = if w == 32 { 1e-15 } else { 1e-140 };
            if !r.nan && m < big && (r.lo > small || r.hi < -small) {
                return self.fabs(n.a);
            }
            // integers (grid values) cannot underflow
            let x = self.n(n.a);
            if x.op == Fx && m < big {
                return self.fabs(n.a);
            }
        }
        self.mk(FSqrt, w, a, NONE, NONE, 0)
    }
    /// comparisons of rounded results that their error-bounded linear forms
    /// decide are noted, to be put to the solver at the end
    pub fn fcmp(&mut self, op: Op, a: E, b: E) -> E {
        let r = self.fcmp1(op, a, b);
        if self.use_fx && self.cval(r).is_some() && op != FUno && a != b && (self.cval(a).is_none() || self.cval(b).is_none()) {
            let v = self.cval(r) == Some(1);
            if self.exact(a).is_none() || self.exact(b).is_none() {
                if let (Some(x), Some(y)) = (self.aff(a), self.aff(b)) {
                    let (na, nb) = (self.n(a).op, self.n(b).op);
                    if !x.v.is_empty() || !y.v.is_empty() || (na == Libm && nb == Libm) {
                        self.decided.insert((op, a, b), v);
                    }
                }
            }
        }
        r
    }
    fn fcmp1(&mut self, op: Op, a: E, b: E) -> E {
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.cval(a), self.cval(b)) {
            let (x, y) = (fval(x, w), fval(y, w));
            let r = match op {
                FLt => x < y,
                FLe => x <= y,
                FEq => x == y,
                _ => x.is_nan() || y.is_nan(),
            };
            return self.con(r as u64, 1);
        }
        // one of two constants
        for (x, y) in [(a, b), (b, a)] {
            let n = self.n(x);
            if n.op == Ite && self.cval(y).is_some() && self.cval(n.b).is_some() && self.cval(n.c).is_some() {
                let (p, q) = if x == a { (self.fcmp1(op, n.b, y), self.fcmp1(op, n.c, y)) } else { (self.fcmp1(op, y, n.b), self.fcmp1(op, y, n.c)) };
                return self.ite(n.a, p, q);
            }
        }
        let (ra, rb) = (self.frange(a), self.frange(b));
        if op == FUno {
            if !ra.nan && !rb.nan {
                return self.fls();
            }
            return self.mk(FUno, 1, a.min(b), a.max(b), NONE, 0);
        }
        // comparison with a NaN constant is false
        for e in [a, b] {
            if let Some(c) = self.cval(e) {
                if fval(c, w).is_nan() {
                    return self.fls();
                }
            }
        }
        if !ra.nan && !rb.nan {
            match op {
                FLt => {
                    if ra.hi < rb.lo {
                        return self.tru();
                    }
                    if ra.lo >= rb.hi || a == b {
                        return self.fls();
                    }
                }
                FLe => {
                    if ra.hi <= rb.lo || a == b {
                        return self.tru();
                    }
                    if ra.lo > rb.hi {
                        return self.fls();
                    }
                }
                _ => {
                    if a == b {
                        return self.tru();
                    }
                    if ra.hi < rb.lo || rb.hi < ra.lo {
                        return self.fls();
                    }
                    if ra.lo == ra.hi && rb.lo == rb.hi && ra.lo == rb.lo {
                        return self.tru();
                    }
                }
            }
            if self.use_fx {
                if let (Some(x), Some(y)) = (self.exact(a), self.exact(b)) {
                    if let Some((p, q, _)) = self.align(x, y) {
                        return match op {
                            FLt => self.slt(p, q),
                            FLe => self.sle(p, q),
                            _ => self.eq(p, q),
                        };
                    }
                }
                // compare grid value with an arbitrary constant: n*2^-k < c  <=>  n < c*2^k
                for flip in [false, true] {
                    let (x, y) = if flip { (b, a) } else { (a, b) };
                    if let (Some((n, k)), Some(c)) = (self.exact(x), self.cval(y)) {
                        let s = fval(c, w) * pow2(k);
                        if s.abs() < 1e15 {
                            let fl = s.floor();
                            let isint = fl == s;
                            let fi = self.con(fl as i64 as u64, 64);
                            return match (op, flip) {
                                (FLt, false) => {
                                    if isint {
                                        self.slt(n, fi)
                                    } else {
                                        self.sle(n, fi)
                                    }
                                }
                                (FLe, false) => self.sle(n, fi),
                                (FLt, true) => self.slt(fi, n),
                                (FLe, true) => {
                                    if isint {
                                        self.sle(fi, n)
                                    } else {
                                        self.slt(fi, n)
                                    }
                                }
                                _ => {
                                    if isint {
                                        self.eq(n, fi)
                                    } else {
                                        self.fls()
                                    }
                                }
                            };
                        }
                    }
                }
            }
        }
        if self.use_fx && !ra.nan && !rb.nan {
            // sqrt(x) against a constant: the root is monotone and correctly rounded
            if op != FEq {
                for flip in [false, true] {
                    let (x, y) = if flip { (b, a) } else { (a, b) };
                    let n = self.n(x);
                    if n.op != FSqrt || w != 32 {
                        continue;
                    }
                    let r = self.frange(n.a);
                    if let (Some(c), true) = (self.cval(y), !r.nan && r.lo >= 0.0 && r.hi.is_finite()) {
                        let c = f32::from_bits(c as u32);
                        if !(c > 0.0 && c < 1e18) {
                            continue;
                        }
                        // largest t with sqrt(t) < c (or <= c)
                        let strict = (op == FLt) != flip;
                        let ok = |t: f32| if strict { t.sqrt() < c } else { t.sqrt() <= c };
                        let mut t = c * c;
                        while !ok(t) {
                            t = f32::from_bits(t.to_bits() - 1);
                        }
                        while ok(f32::from_bits(t.to_bits() + 1)) {
                            t = f32::from_bits(t.to_bits() + 1);
                        }
                        let te = self.con(t.to_bits() as u64, w);
                        // flip: c < sqrt(x) <=> not sqrt(x) <= c <=> t < x
                        return if flip { self.fcmp(FLt, te, n.a) } else { self.fcmp(FLe, n.a, te) };
                    }
                }
            }
            // cos(x) against a constant: the cosine falls from 0 to pi, so the
            // angle decides, except close to the constant's own
            if op != FEq {
                for flip in [false, true] {
                    let (x, y) = if flip { (b, a) } else { (a, b) };
                    let n = self.n(x);
                    if n.op != Libm || n.k != 2 || w != 32 {
                        continue;
                    }
                    let r = self.frange(n.a);
                    if let (Some(c), true) = (self.cval(y), !r.nan && r.lo >= 0.0 && r.hi <= 3.1419) {
                        let c = fval(c, w);
                        if c > -0.9999 && c < 0.9999 {
                            let near = ((c + 5e-7).acos() * (1.0 - 2e-7)) as f32;
                            let far = ((c - 5e-7).acos() * (1.0 + 2e-7)) as f32;
                            let near = self.con(near.to_bits() as u64, w);
                            let far = self.con(far.to_bits() as u64, w);
                            let above = self.fcmp(FLe, n.a, near);
                            let below = self.fcmp(FLe, far, n.a);
                            let (yes, no) = if flip { (above, below) } else { (below, above) };
                            let raw = self.mk(op, 1, a, b, NONE, 0);
                            let no = self.not(no);
                            let open = self.and(no, raw);
                            return self.or(yes, open);
                        }
                    }
                }
            }
            let (na, nb) = (self.n(a), self.n(b));
            if na.op == Libm && nb.op == Libm && na.k == 0 && nb.k == 0 {
                if let Some(r) = self.atan_cmp(op, a, b) {
                    return r;
                }
            }
            if let Some(r) = self.aff_cmp(op, a, b) {
                return r;
            }
        }
        if op == FEq {
            return self.mk(FEq, 1, a.min(b), a.max(b), NONE, 0);
        }
        self.mk(op, 1, a, b, NONE, 0)
    }
    pub fn fcvt(&mut self, a: E, to: u16) -> E {
        let w = self.w(a);
        if w == to {
            return a;
        }
        if let Some(c) = self.cval(a) {
            return self.con(fcvt(c, w, to), to);
        }
        let n = self.n(a);
        if n.op == Fx {
            if let Some(r) = self.mkfx(n.a, n.k as i64 as i32, to) {
                return r;
            }
        }
        if n.op == FCvt && to == 32 && self.w(n.a) == 32 {
            return n.a;
        }
        self.mk(FCvt, to, a, NONE, NONE, 0)
    }
    pub fn f2i(&mut self, a: E, w: u16, signed: bool) -> E {
        let fw = self.w(a);
        if let Some(c) = self.cval(a) {
            let v = if signed { f2s(c, fw, w) } else { f2u(c, fw, w) };
            return self.con(v, w);
        }
        let n = self.n(a);
        if n.op == Fx && n.k as i64 <= 0 {
            let i = self.inf(n.a);
            let sh = -(n.k as i64);
            if sh <= 8 {
                let hi = if w >= 64 { i64::MAX >> 1 } else if signed { (1i64 << (w - 1)) - 1 } else { (1i64 << w) - 1 };
                let lo = if signed { -hi } else { 0 };
                if (i.smin << sh) >= lo && (i.smax << sh) <= hi {
                    let c = self.con(1u64 << sh, 64);
                    let v = self.mul(n.a, c);
                    return self.extract(v, 0, w);
                }
            }
        }
        self.frange(a);
        self.mk(if signed { F2S } else { F2U }, w, a, NONE, NONE, 0)
    }
    pub fn i2f(&mut self, a: E, fw: u16, signed: bool) -> E {
        let w = self.w(a);
        if let Some(c) = self.cval(a) {
            let v = if signed { i2f(sx(c, w), fw) } else { u2f(c, fw) };
            return self.con(v, fw);
        }
        if w <= 64 {
            let i = self.inf(a);
            let l = Self::limit(fw);
            if signed && i.smin > -l && i.smax < l {
                let x = self.sext(a, 64);
                if let Some(r) = self.mkfx(x, 0, fw) {
                    return r;
                }
            }
            if !signed && i.umax < l as u64 {
                let x = self.zext(a, 64);
                if let Some(r) = self.mkfx(x, 0, fw) {
                    return r;
                }
            }
        }
        self.mk(if signed { S2F } else { U2F }, fw, a, NONE, NONE, 0)
    }
    pub fn fround(&mut self, k: u64, a: E) -> E {
        let w = self.w(a);
        if let Some(c) = self.cval(a) {
            return self.con(fround(k, c, w), w);
        }
        let n = self.n(a);
        if n.op == Fx && n.k as i64 <= 0 {
            return a;
        }
        self.mk(FRound, w, a, NONE, NONE, k)
    }
    pub fn libm(&mut self, id: u64, a: E, b: E) -> E {
        let w = self.w(a);
        let ca = self.cval(a);
        let cb = if b == NONE { Some(0) } else { self.cval(b) };
        if let (Some(x), Some(y)) = (ca, cb) {
            return self.con(libm_eval(id, w, x, y), w);
        }
        self.mk(Libm, w, a, b, NONE, id)
    }

    // ------------------------------------------------------------- rewriting
    pub fn rebuild(&mut self, n: Node, a: E, b: E, c: E) -> E {
        match n.op {
            Const | Sym => unreachable!(),
            Add => self.add(a, b),
            Mul => self.mul(a, b),
            UDiv | SDiv | URem | SRem => self.divrem(n.op, a, b),
            And => self.and(a, b),
            Or => self.or(a, b),
            Xor => self.xor(a, b),
            Shl => self.shl(a, b),
            LShr => self.lshr(a, b),
            AShr => self.ashr(a, b),
            Eq => self.eq(a, b),
            Ult => self.ult(a, b),
            Ule => self.ule(a, b),
            Slt => self.slt(a, b),
            Sle => self.sle(a, b),
            Ite => self.ite(a, b, c),
            ZExt => self.zext(a, n.w),
            SExt => self.sext(a, n.w),
            Extract => self.extract(a, n.k as u16, n.w),
            Concat => self.concat(a, b),
            FAdd | FSub | FMul | FDiv => self.farith(n.op, a, b),
            FSqrt => self.fsqrt(a),
            FLt | FLe | FEq | FUno => self.fcmp(n.op, a, b),
            FCvt => self.fcvt(a, n.w),
            F2S => self.f2i(a, n.w, true),
            F2U => self.f2i(a, n.w, false),
            S2F => self.i2f(a, n.w, true),
            U2F => self.i2f(a, n.w, false),
            Fx => self.mkfx(a, n.k as i64 as i32, n.w).unwrap_or_else(|| self.mk(Fx, n.w, a, NONE, NONE, n.k)),
            FRound => self.fround(n.k, a),
            Libm => self.libm(n.k, a, b),
        }
    }
    pub fn subst(&mut self, e: E, map: &HashMap<E, E>, memo: &mut HashMap<E, E>) -> E {
        if map.is_empty() {
            return e;
        }
        let mut stack = vec![e];
        while let Some(&x) = stack.last() {
            if memo.contains_key(&x) {
                stack.pop();
                continue;
            }
            if let Some(&r) = map.get(&x) {
                memo.insert(x, r);
                stack.pop();
                continue;
            }
            let n = self.n(x);
            if n.op == Const || n.op == Sym {
                memo.insert(x, x);
                stack.pop();
                continue;
            }
            let mut ready = true;
            for k in [n.a, n.b, n.c] {
                if k != NONE && !memo.contains_key(&k) {
                    stack.push(k);
                    ready = false;
                }
            }
            if !ready {
                continue;
            }
            let g = |k: E| if k == NONE { NONE } else { memo[&k] };
            let (a, b, c) = (g(n.a), g(n.b), g(n.c));
            let r = if a == n.a && b == n.b && c == n.c { x } else { self.rebuild(n, a, b, c) };
            memo.insert(x, r);
            stack.pop();
        }
        memo[&e]
    }

    // ------------------------------------------------------------ evaluation
    pub fn eval(&self, e: E, m: &Model, memo: &mut HashMap<E, u128>) -> u128 {
        let mut stack = vec![e];
        while let Some(&x) = stack.last() {
            if memo.contains_key(&x) {
                stack.pop();
                continue;
            }
            let n = self.n(x);
            if n.op == Const {
                memo.insert(x, (n.k2 as u128) << 64 | n.k as u128);
                stack.pop();
                continue;
            }
            if n.op == Sym {
                memo.insert(x, m.get(n.k as u32) as u128);
                stack.pop();
                continue;
            }
            let mut ready = true;
            for k in [n.a, n.b, n.c] {
                if k != NONE && !memo.contains_key(&k) {
                    stack.push(k);
                    ready = false;
                }
            }
            if !ready {
                continue;
            }
            let g = |k: E| if k == NONE { 0 } else { memo[&k] };
            let r = self.eval1(&n, g(n.a), g(n.b), g(n.c));
            memo.insert(x, r);
            stack.pop();
        }
        memo[&e]
    }
    fn eval1(&self, n: &Node, a: u128, b: u128, c: u128) -> u128 {
        let w = n.w;
        let m = mask128(w);
        let wa = if n.a == NONE { 0 } else { self.w(n.a) };
        let bl = |x: bool| x as u128;
        let r = match n.op {
            Const | Sym => unreachable!(),
            Add => a.wrapping_add(b),
            Mul => a.wrapping_mul(b),
            UDiv => {
                if b == 0 {
                    m
                } else {
                    a / b
                }
            }
            URem => {
                if b == 0 {
                    a
                } else {
                    a % b
                }
            }
            SDiv => {
                let (x, y) = (sx128(a, w), sx128(b, w));
                if y == 0 {
                    if x >= 0 {
                        m
                    } else {
                        1
                    }
                } else {
                    x.wrapping_div(y) as u128
                }
            }
            SRem => {
                let (x, y) = (sx128(a, w), sx128(b, w));
                if y == 0 {
                    a
                } else {
                    x.wrapping_rem(y) as u128
                }
            }
            And => a & b,
            Or => a | b,
            Xor => a ^ b,
            Shl => {
                if b >= w as u128 {
                    0
                } else {
                    a << b
                }
            }
            LShr => {
                if b >= w as u128 {
                    0
                } else {
                    a >> b
                }
            }
            AShr => {
                let k = b.min(w as u128 - 1);
                (sx128(a, w) >> k) as u128
            }
            Eq => bl(a == b),
            Ult => bl(a < b),
            Ule => bl(a <= b),
            Slt => bl(sx128(a, wa) < sx128(b, wa)),
            Sle => bl(sx128(a, wa) <= sx128(b, wa)),
            Ite => {
                if a == 1 {
                    b
                } else {
                    c
                }
            }
            ZExt => a,
            SExt => sx128(a, wa) as u128,
            Extract => a >> n.k,
            Concat => a << self.w(n.b) | b,
            FAdd | FSub | FMul | FDiv | FSqrt => fop(n.op, w, a as u64, b as u64) as u128,
            FLt => bl(fval(a as u64, wa) < fval(b as u64, wa)),
            FLe => bl(fval(a as u64, wa) <= fval(b as u64, wa)),
            FEq => bl(fval(a as u64, wa) == fval(b as u64, wa)),
            FUno => bl(fval(a as u64, wa).is_nan() || fval(b as u64, wa).is_nan()),
            FCvt => fcvt(a as u64, wa, w) as u128,
            F2S => f2s(a as u64, wa, w) as u128,
            F2U => f2u(a as u64, wa, w) as u128,
            S2F => i2f(sx(a as u64, wa), w) as u128,
            U2F => u2f(a as u64, w) as u128,
            Fx => {
                let v = a as u64 as i64 as f64 * pow2(-(n.k as i64 as i32));
                if w == 32 {
                    (v as f32).to_bits() as u128
                } else {
                    v.to_bits() as u128
                }
            }
            FRound => fround(n.k, a as u64, w) as u128,
            Libm => libm_eval(n.k, w, a as u64, b as u64) as u128,
        };
        r & m
    }

    pub fn show(&self, e: E, depth: u32) -> String {
        let n = self.n(e);
        match n.op {
            Const => {
                if n.w == 32 {
                    let f = f32::from_bits(n.k as u32);
                    format!("{:#x}:{}[{}]", n.k, n.w, f)
                } else {
                    format!("{:#x}:{}", n.k, n.w)
                }
            }
            Sym => self.syms[n.k as usize].name.clone(),
            _ => {
                if depth == 0 {
                    return "..".into();
                }
                let mut s = format!("({:?}", n.op);
                if matches!(n.op, Extract | Fx | FRound | Libm) {
                    s += &format!("#{}", n.k as i64);
                }
                for k in [n.a, n.b, n.c] {
                    if k != NONE {
                        s += " ";
                        s += &self.show(k, depth - 1);
                    }
                }
                s + ")"
            }
        }
    }
}

fn fabs_range(x: FR) -> FR {
    let (l, h) = (x.lo.abs(), x.hi.abs());
    let lo = if x.lo <= 0.0 && x.hi >= 0.0 { 0.0 } else { l.min(h) };
    FR { lo, hi: l.max(h), nan: x.nan }
}

/// assignment of values to symbols; symbols not present take their initial value
#[derive(Clone, Debug, Default)]
pub struct Model {
    pub v: HashMap<u32, u64>,
}
impl Model {
    pub fn get(&self, s: u32) -> u64 {
        match self.v.get(&s) {
            Some(&x) => x,
            None => t().syms[s as usize].init,
        }
    }
}
