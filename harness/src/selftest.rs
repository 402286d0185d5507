//! The engine's own smoke tests: known-good and known-bad claims.
use crate::prelude::*;
use std::collections::HashMap;

pub fn h_self_arith() {
    let a = un("a", 32, 0, 1000) as u32;
    let b = un("b", 32, 0, 1000) as u32;
    check(a + b <= 2000, "sum");
    if a > b {
        check(a - b > 0, "diff");
        reach("gt");
    }
    check(a * 2 != 13 * b || a == 0 || b != 2, "false-claim");
    let f = fl("f", 0.0, 10.0);
    check(f * 2.0 <= 20.0, "float");
}
pub fn h_self_vec() {
    let mut m = HashMap::new();
    m.insert("a".to_string(), un("x", 8, 0, 9));
    m.insert("b".to_string(), un("y", 8, 0, 9));
    let mut v: Vec<u64> = m.values().cloned().collect();
    v.sort();
    check(v[0] <= v[1], "sorted");
    let x = grid("g", -64, 64, 3);
    let s = format!("{} {}", ft(x), it(v[0] as i64));
    let w: Vec<&str> = s.split_whitespace().collect();
    let y: f32 = w[0].parse().unwrap();
    let z: i32 = w[1].parse().unwrap();
    check(y == x, "f-round");
    check(z as u64 == v[0], "i-round");
    println!("{} {}", z, y);
    let q = format!("{} {:?}", z, y);
    check(q.len() > 3, "len");
    let i = un("i", 8, 0, 5) as usize;
    let arr = [1u8, 2, 3, 4, 5];
    check(arr[i] > 0, "oob");
}
pub fn h_self_file() {
    let b = byte("b");
    let p = put("x.bin", &[1, b, 3]);
    let d = std::fs::read(&p).unwrap();
    check(d.len() == 3 && d[1] == b, "file");
    obs("d1", d[1] as u64);
    let (_, s) = captured(|| println!("hello {}", 3));
    check(s == "hello 3\n", "cap");
    obs_s("s", &s);
    check(std::fs::read_to_string(path("nope")).is_err(), "missing");
}
