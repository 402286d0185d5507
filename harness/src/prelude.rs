extern "C-unwind" {
    fn qs_assume(c: bool);
}
extern "C" {
    fn qs_u(name: *const u8, len: usize, bits: u32, lo: u64, hi: u64) -> u64;
    fn qs_i(name: *const u8, len: usize, bits: u32, lo: i64, hi: i64) -> i64;
    fn qs_f(name: *const u8, len: usize, lo: f32, hi: f32) -> f32;
    fn qs_g(name: *const u8, len: usize, lo: i64, hi: i64, k: i32) -> f32;
    fn qs_choose(name: *const u8, len: usize, n: u64) -> u64;
    fn qs_conc(x: u64) -> u64;

    fn qs_check(c: bool, label: *const u8, len: usize);
    fn qs_obs(name: *const u8, len: usize, x: u64);
    fn qs_reach(label: *const u8, len: usize);
    fn qs_is_sym(x: u64) -> u64;
    fn qs_native() -> u64;
    fn qs_tok(x: u64, kind: u64) -> u64;
    fn qs_untok(id: u64, kind: u64) -> u64;
    fn qs_note(name: *const u8, len: usize, x: u64);
    fn qs_ite(c: bool, a: u64, b: u64) -> u64;
    fn qs_expect_panic(on: bool);
    fn qs_yield(preemptions: u64);
}

/// a symbolic unsigned number of `bits` bits in lo..=hi
pub fn un(name: &str, bits: u32, lo: u64, hi: u64) -> u64 {
    unsafe { qs_u(name.as_ptr(), name.len(), bits, lo, hi) }
}
pub fn byte(name: &str) -> u8 {
    un(name, 8, 0, 255) as u8
}
/// a symbolic signed number
pub fn int(name: &str, bits: u32, lo: i64, hi: i64) -> i64 {
    unsafe { qs_i(name.as_ptr(), name.len(), bits, lo, hi) }
}
/// any f32 in lo..=hi
pub fn fl(name: &str, lo: f32, hi: f32) -> f32 {
    unsafe { qs_f(name.as_ptr(), name.len(), lo, hi) }
}
/// n * 2^-k for any whole n in lo..=hi
pub fn grid(name: &str, lo: i64, hi: i64, k: i32) -> f32 {
    unsafe { qs_g(name.as_ptr(), name.len(), lo, hi, k) }
}
/// one of 0..n; the engine explores each
pub fn choose(name: &str, n: usize) -> usize {
    unsafe { qs_choose(name.as_ptr(), name.len(), n as u64) as usize }
}
pub fn flag(name: &str) -> bool {
    choose(name, 2) == 1
}
/// make concrete, exploring every value
pub fn conc(x: u64) -> u64 {
    unsafe { qs_conc(x) }
}
pub fn assume(c: bool) {
    unsafe { qs_assume(c) }
}
pub fn check(c: bool, label: &str) {
    unsafe { qs_check(c, label.as_ptr(), label.len()) }
}
pub fn obs(name: &str, x: u64) {
    unsafe { qs_obs(name.as_ptr(), name.len(), x) }
}
pub fn obs_f(name: &str, x: f32) {
    obs(name, x.to_bits() as u64)
}
pub fn obs_s(name: &str, s: &str) {
    for b in s.bytes() {
        obs(name, b as u64)
    }
}
pub fn reach(label: &str) {
    unsafe { qs_reach(label.as_ptr(), label.len()) }
}
pub fn is_sym(x: u64) -> bool {
    unsafe { qs_is_sym(x) != 0 }
}
pub fn native() -> bool {
    unsafe { qs_native() != 0 }
}
pub fn tok(x: u64, kind: u64) -> u64 {
    unsafe { qs_tok(x, kind) }
}
pub fn untok(id: u64, kind: u64) -> u64 {
    unsafe { qs_untok(id, kind) }
}
pub fn note(name: &str, x: u64) {
    unsafe { qs_note(name.as_ptr(), name.len(), x) }
}
/// choice without a branch
pub fn ite(c: bool, a: u64, b: u64) -> u64 {
    unsafe { qs_ite(c, a, b) }
}
pub fn itef(c: bool, a: f32, b: f32) -> f32 {
    f32::from_bits(ite(c, a.to_bits() as u64, b.to_bits() as u64) as u32)
}
pub fn expect_panic(on: bool) {
    unsafe { qs_expect_panic(on) }
}
pub fn preemptions(n: u64) {
    unsafe { qs_yield(n) }
}
/// conjunction and disjunction without branches
pub fn and(a: bool, b: bool) -> bool {
    a & b
}

pub const K_F32: u64 = 0;
pub const K_INT: u64 = 1;

/// the text of a number; a symbolic one becomes a placeholder that the
/// stand-in for the number parser turns back into the same symbolic value
pub fn ft(x: f32) -> String {
    if is_sym(x.to_bits() as u64) {
        format!("77{:07}.5", tok(x.to_bits() as u64, K_F32))
    } else {
        format!("{:?}", x)
    }
}
pub fn it(x: i64) -> String {
    if is_sym(x as u64) {
        format!("77{:07}", tok(x as u64, K_INT))
    } else {
        format!("{}", x)
    }
}
/// |a-b| <= eps, without branching
pub fn near(a: f32, b: f32, eps: f32) -> bool {
    let d = a - b;
    (d <= eps) & (d >= -eps)
}

/// where a harness keeps its files
pub fn path(name: &str) -> String {
    #[cfg(feature = "native")]
    {
        return crate::native_rt::path(name);
    }
    #[cfg(not(feature = "native"))]
    {
        name.to_string()
    }
}
pub fn put(name: &str, data: &[u8]) -> String {
    let p = path(name);
    std::fs::write(&p, data).unwrap();
    p
}

/// run f and return what it printed to standard output
pub fn captured<R>(f: impl FnOnce() -> R) -> (R, String) {
    #[cfg(feature = "native")]
    {
        let buf = std::sync::Arc::new(std::sync::Mutex::new(Vec::new()));
        let old = std::io::set_output_capture(Some(buf.clone()));
        let r = f();
        std::io::set_output_capture(old);
        let v = buf.lock().unwrap().clone();
        (r, String::from_utf8(v).unwrap())
    }
    #[cfg(not(feature = "native"))]
    unsafe {
        crate::stubs::CAP = Some(String::new());
        let r = f();
        let s = crate::stubs::CAP.take().unwrap();
        (r, s)
    }
}
#[cfg(not(feature = "native"))]
extern "C" {
    fn qs_shim_par(on: bool);
}
/// interleave the jobs of parallel iterators
pub fn parallel(on: bool) {
    #[cfg(not(feature = "native"))]
    unsafe {
        qs_shim_par(on)
    }
    let _ = on;
}
/// see stubs::HASH
pub fn hash_mode(mode: u64) {
    #[cfg(not(feature = "native"))]
    crate::stubs::set_hash(mode);
    let _ = mode;
}
