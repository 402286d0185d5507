#![feature(internal_output_capture)]
//! qreplay NAME VALUES-FILE SCRATCH-DIR: run one harness on concrete values.
//! Prints one JSON line.
use qh::native_rt::*;
use std::alloc::{GlobalAlloc, Layout, System};

/// Refuses single allocations over 1 GiB, like the engine.
struct Limit;
unsafe impl GlobalAlloc for Limit {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if l.size() > 1 << 30 {
            return std::ptr::null_mut();
        }
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if l.size() > 1 << 30 {
            return std::ptr::null_mut();
        }
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if n > 1 << 30 {
            return std::ptr::null_mut();
        }
        System.realloc(p, l, n)
    }
}
#[global_allocator]
static A: Limit = Limit;

fn js(x: &str) -> String {
    let mut r = String::from("\"");
    for c in x.chars() {
        match c {
            '"' => r += "\\\"",
            '\\' => r += "\\\\",
            c if (c as u32) < 32 => r += &format!("\\u{:04x}", c as u32),
            c => r.push(c),
        }
    }
    r + "\""
}
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let text = std::fs::read_to_string(&a[2]).unwrap();
    let mut rt = Rt { dir: a[3].clone(), ..Rt::default() };
    for l in text.lines() {
        let (n, v) = l.rsplit_once(' ').unwrap();
        rt.vals.push((n.to_string(), v.parse().unwrap()));
    }
    *RT.lock().unwrap() = Some(rt);
    let f = qh::TABLE.iter().find(|x| x.0 == a[1]).expect("no such harness").1;
    std::env::set_current_dir(&a[3]).unwrap();
    let sink = std::sync::Arc::new(std::sync::Mutex::new(Vec::new()));
    std::io::set_output_capture(Some(sink));
    let msg = std::sync::Arc::new(std::sync::Mutex::new(String::new()));
    let m2 = msg.clone();
    std::panic::set_hook(Box::new(move |i| {
        let mut m = m2.lock().unwrap();
        if m.is_empty() {
            *m = i.to_string().replace('\n', " ");
        }
    }));
    let r = std::panic::catch_unwind(f);
    std::io::set_output_capture(None);
    let (mut assume, mut panic) = (false, false);
    if let Err(e) = r {
        if e.is::<AssumeFailed>() {
            assume = true;
        } else {
            with(|r| panic = !r.expect_panic);
        }
    }
    with(|r| {
        let failed: Vec<String> = r.failed.iter().map(|x| js(x)).collect();
        let obs: Vec<String> = r.obs.iter().map(|(n, x)| format!("[{},\"{}\"]", js(n), x)).collect();
        println!(
            "{{\"assume\":{},\"panic\":{},\"msg\":{},\"checks\":{},\"failed\":[{}],\"obs\":[{}],\"desync\":{}}}",
            assume,
            panic,
            js(&msg.lock().unwrap()),
            r.checks,
            failed.join(","),
            obs.join(","),
            r.desync.as_ref().map_or("null".into(), |x| js(x))
        );
    });
}
