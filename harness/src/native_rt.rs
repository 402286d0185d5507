//! Native counterparts of the engine's intrinsics: values come from a file.
use std::sync::Mutex;

#[derive(Default)]
pub struct Rt {
    pub vals: Vec<(String, u64)>,
    pub pos: usize,
    pub failed: Vec<String>,
    pub checks: u64,
    pub obs: Vec<(String, u64)>,
    pub reach: Vec<String>,
    pub desync: Option<String>,
    pub dir: String,
    pub expect_panic: bool,
}
pub static RT: Mutex<Option<Rt>> = Mutex::new(None);
pub struct AssumeFailed;

pub fn with<R>(f: impl FnOnce(&mut Rt) -> R) -> R {
    let mut g = match RT.lock() {
        Ok(g) => g,
        Err(e) => e.into_inner(),
    };
    f(g.as_mut().unwrap())
}
pub fn path(name: &str) -> String {
    with(|r| format!("{}/{}", r.dir, name))
}
unsafe fn s(p: *const u8, n: usize) -> String {
    String::from_utf8_lossy(std::slice::from_raw_parts(p, n)).into_owned()
}
fn next(name: String) -> u64 {
    with(|r| {
        // scheduling decisions only exist in the symbolic build
        while r.pos < r.vals.len() && r.vals[r.pos].0.starts_with("sched") {
            r.pos += 1;
        }
        if r.pos >= r.vals.len() {
            r.desync.get_or_insert(format!("no value left for {}", name));
            return 0;
        }
        let (n, v) = r.vals[r.pos].clone();
        r.pos += 1;
        if n.split(|c| c == '[' || c == '#').next() != Some(name.as_str()) {
            r.desync.get_or_insert(format!("wanted {}, found {}", name, n));
        }
        v
    })
}
#[no_mangle]
unsafe extern "C" fn qs_u(p: *const u8, n: usize, _bits: u32, _lo: u64, _hi: u64) -> u64 {
    next(s(p, n))
}
#[no_mangle]
unsafe extern "C" fn qs_i(p: *const u8, n: usize, bits: u32, _lo: i64, _hi: i64) -> i64 {
    let v = next(s(p, n));
    if bits >= 64 {
        v as i64
    } else {
        ((v << (64 - bits)) as i64) >> (64 - bits)
    }
}
#[no_mangle]
unsafe extern "C" fn qs_f(p: *const u8, n: usize, _lo: f32, _hi: f32) -> f32 {
    f32::from_bits(next(s(p, n)) as u32)
}
#[no_mangle]
unsafe extern "C" fn qs_g(p: *const u8, n: usize, _lo: i64, _hi: i64, k: i32) -> f32 {
    let v = next(s(p, n)) as i32;
    (v as f64 * (2f64).powi(-k)) as f32
}
#[no_mangle]
unsafe extern "C" fn qs_choose(p: *const u8, n: usize, _k: u64) -> u64 {
    next(s(p, n))
}
#[no_mangle]
extern "C" fn qs_conc(x: u64) -> u64 {
    x
}
#[no_mangle]
extern "C-unwind" fn qs_assume(c: bool) {
    if !c {
        std::panic::resume_unwind(Box::new(AssumeFailed));
    }
}
#[no_mangle]
unsafe extern "C" fn qs_check(c: bool, p: *const u8, n: usize) {
    let l = s(p, n);
    with(|r| {
        r.checks += 1;
        if !c {
            r.failed.push(l)
        }
    })
}
#[no_mangle]
unsafe extern "C" fn qs_obs(p: *const u8, n: usize, x: u64) {
    let l = s(p, n);
    with(|r| r.obs.push((l, x)))
}
#[no_mangle]
unsafe extern "C" fn qs_reach(p: *const u8, n: usize) {
    let l = s(p, n);
    with(|r| r.reach.push(l))
}
#[no_mangle]
extern "C" fn qs_is_sym(_: u64) -> u64 {
    0
}
#[no_mangle]
extern "C" fn qs_native() -> u64 {
    1
}
#[no_mangle]
extern "C" fn qs_tok(x: u64, _: u64) -> u64 {
    x
}
#[no_mangle]
extern "C" fn qs_untok(x: u64, _: u64) -> u64 {
    x
}
#[no_mangle]
unsafe extern "C" fn qs_note(_: *const u8, _: usize, _: u64) {}
#[no_mangle]
extern "C" fn qs_ite(c: bool, a: u64, b: u64) -> u64 {
    if c {
        a
    } else {
        b
    }
}
#[no_mangle]
extern "C" fn qs_expect_panic(on: bool) {
    with(|r| r.expect_panic = on)
}
#[no_mangle]
extern "C" fn qs_yield(_: u64) {}
