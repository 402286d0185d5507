//! Stand-ins for a few library functions in the symbolic build.  Each falls
//! back to the real function unless symbolic numbers are involved.
use crate::prelude::*;
use std::fmt;
use std::str::FromStr;

pub static mut CAP: Option<String> = None;

#[no_mangle]
pub fn qs_stub_print(a: fmt::Arguments) {
    unsafe {
        if let Some(c) = &mut CAP {
            let s = fmt::format(a);
            c.push_str(&s);
        }
    }
}
#[no_mangle]
pub fn qs_stub_eprint(_: fmt::Arguments) {}

fn digits(b: &[u8]) -> Option<u64> {
    let mut n = 0u64;
    for c in b {
        if !c.is_ascii_digit() {
            return None;
        }
        n = n * 10 + (*c - b'0') as u64;
    }
    Some(n)
}
fn fph(s: &str) -> Option<u64> {
    let b = s.as_bytes();
    if b.len() != 11 || b[0] != b'7' || b[1] != b'7' || b[9] != b'.' || b[10] != b'5' {
        return None;
    }
    digits(&b[2..9])
}
/// the number, unless -2^63
fn inum(s: &str) -> Option<i64> {
    if let Some(id) = iph(s) {
        return Some(untok(id, K_INT) as i64);
    }
    // the digits of the absolute value
    let id = iph(s.strip_prefix('-')?)?;
    Some((untok(id, K_INT) as i64).wrapping_neg())
}
fn iph(s: &str) -> Option<u64> {
    let b = s.as_bytes();
    if b.len() != 9 || b[0] != b'7' || b[1] != b'7' {
        return None;
    }
    digits(&b[2..9])
}
#[no_mangle]
pub fn qs_stub_f32_from_str(s: &str) -> Result<f32, std::num::ParseFloatError> {
    if let Some(id) = fph(s) {
        return Ok(f32::from_bits(untok(id, K_F32) as u32));
    }
    if let Some(n) = inum(s) {
        return Ok(n as f32);
    }
    <f32 as FromStr>::from_str(s)
}
#[no_mangle]
pub fn qs_stub_f64_from_str(s: &str) -> Result<f64, std::num::ParseFloatError> {
    if let Some(id) = fph(s) {
        return Ok(f32::from_bits(untok(id, K_F32) as u32) as f64);
    }
    if let Some(n) = inum(s) {
        return Ok(n as f64);
    }
    <f64 as FromStr>::from_str(s)
}
macro_rules! ints {
    ($($f:ident $t:ty),*) => {$(
        #[no_mangle]
        pub fn $f(s: &str) -> Result<$t, std::num::ParseIntError> {
            if let Some(n) = inum(s) {
                if let Ok(n) = <$t>::try_from(n) {
                    return Ok(n);
                }
                // out of range
                const FAR: &str = "-999999999999999999999999999999999999999999";
                return <$t as FromStr>::from_str(if n < 0 { FAR } else { &FAR[1..] });
            }
            <$t as FromStr>::from_str(s)
        }
    )*};
}
ints!(qs_stub_i32_from_str i32, qs_stub_i64_from_str i64, qs_stub_u32_from_str u32, qs_stub_usize_from_str usize,
    qs_stub_i8_from_str i8, qs_stub_i16_from_str i16, qs_stub_isize_from_str isize, qs_stub_i128_from_str i128,
    qs_stub_u8_from_str u8, qs_stub_u16_from_str u16, qs_stub_u64_from_str u64, qs_stub_u128_from_str u128);

macro_rules! fshow {
    ($($f:ident $t:ty, $tr:path);*) => {$(
        #[no_mangle]
        pub fn $f(x: &$t, f: &mut fmt::Formatter) -> fmt::Result {
            if is_sym((*x as f32).to_bits() as u64) {
                // a rounded number is not the number itself
                let tail = if f.precision().is_some() { 4 } else { 5 };
                return write!(f, "77{:07}.{}", tok((*x as f32).to_bits() as u64, K_F32), tail);
            }
            <$t as $tr>::fmt(x, f)
        }
    )*};
}
fshow!(qs_stub_f32_display f32, fmt::Display; qs_stub_f32_debug f32, fmt::Debug);
macro_rules! ishow {
    ($($f:ident $t:ty, $tr:path);*) => {$(
        #[no_mangle]
        pub fn $f(x: &$t, f: &mut fmt::Formatter) -> fmt::Result {
            if is_sym(*x as u64) {
                return write!(f, "77{:07}", tok(*x as i64 as u64, K_INT));
            }
            <$t as $tr>::fmt(x, f)
        }
    )*};
}
ishow!(qs_stub_i32_display i32, fmt::Display; qs_stub_i32_debug i32, fmt::Debug;
       qs_stub_i64_display i64, fmt::Display; qs_stub_i64_debug i64, fmt::Debug;
       qs_stub_u32_display u32, fmt::Display; qs_stub_usize_display usize, fmt::Display;
       qs_stub_u32_debug u32, fmt::Debug; qs_stub_usize_debug usize, fmt::Debug;
       qs_stub_u8_display u8, fmt::Display; qs_stub_u8_debug u8, fmt::Debug;
       qs_stub_i8_display i8, fmt::Display; qs_stub_i16_display i16, fmt::Display; qs_stub_isize_display isize, fmt::Display;
       qs_stub_u16_display u16, fmt::Display; qs_stub_u64_display u64, fmt::Display);
macro_rules! idigits {
    ($($f:ident $t:ty);*) => {$(
        /// the digits of an absolute value
        #[no_mangle]
        pub fn $f(x: $t, _: &mut [std::mem::MaybeUninit<u8>]) -> &'static str {
            let s = if is_sym(x as u64) { format!("77{:07}", tok(x as u64, K_INT)) } else { format!("{}", x) };
            Box::leak(s.into_boxed_str())
        }
    )*};
}
idigits!(qs_stub_u8_digits u8; qs_stub_u16_digits u16; qs_stub_u32_digits u32; qs_stub_u64_digits u64; qs_stub_usize_digits usize);

/// How hash tables see their keys: 0 the real hash; 1 one hash for all (keys
/// may then be symbolic, they are told apart by comparison only); 2 and up: the
/// iteration order is permuted.
pub static mut HASH: u64 = 0;
static mut SEEN: Vec<u64> = Vec::new();

pub fn set_hash(mode: u64) {
    unsafe {
        HASH = mode;
        SEEN = Vec::new();
    }
}
const PERM: [[u64; 4]; 24] = [
    [0, 1, 2, 3], [0, 1, 3, 2], [0, 2, 1, 3], [0, 2, 3, 1], [0, 3, 1, 2], [0, 3, 2, 1],
    [1, 0, 2, 3], [1, 0, 3, 2], [1, 2, 0, 3], [1, 2, 3, 0], [1, 3, 0, 2], [1, 3, 2, 0],
    [2, 0, 1, 3], [2, 0, 3, 1], [2, 1, 0, 3], [2, 1, 3, 0], [2, 3, 0, 1], [2, 3, 1, 0],
    [3, 0, 1, 2], [3, 0, 2, 1], [3, 1, 0, 2], [3, 1, 2, 0], [3, 2, 0, 1], [3, 2, 1, 0],
];
#[no_mangle]
pub fn qs_stub_finish(h: &std::collections::hash_map::DefaultHasher) -> u64 {
    use std::hash::Hasher;
    unsafe {
        match HASH {
            0 => h.finish(),
            1 => 0,
            m => {
                let real = h.finish();
                let i = match SEEN.iter().position(|x| *x == real) {
                    Some(i) => i,
                    None => {
                        SEEN.push(real);
                        SEEN.len() - 1
                    }
                } as u64;
                let p = PERM[((m - 2) % 24) as usize][(i % 4) as usize];
                let hi = (i / 4 + (m - 2) / 24) % 2;
                let pos = p + 4 * hi;
                pos | ((real >> 57) << 57)
            }
        }
    }
}
