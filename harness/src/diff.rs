//! C04: comparing two map files.
use crate::prelude::*;
use crate::scene::same;

fn join(lines: &[Vec<u8>], last: bool) -> Vec<u8> {
    let mut out = Vec::new();
    for (i, l) in lines.iter().enumerate() {
        out.extend_from_slice(l);
        if last || i + 1 < lines.len() {
            out.push(b'\n');
        }
    }
    out
}
fn diff(a: &[u8], b: &[u8]) -> (bool, String) {
    let pa = put("a.map", a);
    let pb = put("b.map", b);
    let (r, s) = captured(|| quarchitect::run_diff(&pa, &pb).is_ok());
    (r, s)
}
fn starts(s: &[u8], i: usize, p: &[u8]) -> bool {
    i + p.len() <= s.len() && &s[i..i + p.len()] == p
}
/// the lines a report names, as indices into `marks`; symbolic ones come as
/// their single letter behind "//"
enum Item {
    Letter(u8),
    Mark(usize),
}
fn report(s: &str, marks: &[&str]) -> Option<(Vec<Item>, Vec<Item>)> {
    // the letters are the only symbolic bytes; they stand behind "//"
    let b = s.as_bytes();
    let (mut added, mut removed) = (Vec::new(), Vec::new());
    let mut side = 0;
    let (mut seen_a, mut seen_r) = (false, false);
    let mut i = 0;
    while i < b.len() {
        if starts(b, i, b"added:") {
            side = 1;
            seen_a = true;
            i += 6;
            continue;
        }
        if starts(b, i, b"removed:") {
            side = 2;
            seen_r = true;
            i += 8;
            continue;
        }
        let mut hit = None;
        let mut len = 1;
        if starts(b, i, b"//") && i + 2 < b.len() {
            hit = Some(Item::Letter(b[i + 2]));
            len = 3;
        } else {
            for (k, m) in marks.iter().enumerate() {
                if starts(b, i, m.as_bytes()) {
                    hit = Some(Item::Mark(k));
                    len = m.len();
                    break;
                }
            }
        }
        if let Some(h) = hit {
            match side {
                1 => added.push(h),
                2 => removed.push(h),
                _ => {}
            }
        }
        i += len;
    }
    if seen_a && seen_r {
        Some((removed, added))
    } else {
        None
    }
}
/// length of the longest common subsequence, by definition
fn lcs(a: &[u8], b: &[u8]) -> u64 {
    let mut best = 0u64;
    for ma in 0..(1usize << a.len()) {
        let xa: Vec<u8> = (0..a.len()).filter(|i| ma >> i & 1 == 1).map(|i| a[i]).collect();
        for mb in 0..(1usize << b.len()) {
            if mb.count_ones() != ma.count_ones() {
                continue;
            }
            let xb: Vec<u8> = (0..b.len()).filter(|i| mb >> i & 1 == 1).map(|i| b[i]).collect();
            let n = xa.len() as u64;
            best = ite(same(&xa, &xb) & (n > best), n, best);
        }
    }
    best
}
/// the ways of taking `part` out of `all`: what is left, and whether it is
/// really `part` that went
fn left(all: &[u8], part: &[u8]) -> Vec<(Vec<u8>, bool)> {
    let mut out = Vec::new();
    for m in 0..(1usize << all.len()) {
        if m.count_ones() as usize != part.len() {
            continue;
        }
        let gone: Vec<u8> = (0..all.len()).filter(|i| m >> i & 1 == 1).map(|i| all[i]).collect();
        let rest: Vec<u8> = (0..all.len()).filter(|i| m >> i & 1 == 0).map(|i| all[i]).collect();
        out.push((rest, same(&gone, part)));
    }
    out
}
fn judge(a: &[u8], b: &[u8], removed: &[u8], added: &[u8]) {
    let l = lcs(a, b);
    check((removed.len() as u64 + l == a.len() as u64) & (added.len() as u64 + l == b.len() as u64), "no smaller report would do");
    let mut ok = false;
    for (ra, ga) in left(a, removed) {
        for (rb, gb) in left(b, added) {
            if ra.len() == rb.len() {
                ok |= ga & gb & same(&ra, &rb);
            }
        }
    }
    check(ok, "without the reported lines, in file order, both files are the same");
}
/// files of lines with an arbitrary letter each
fn letters(max: usize, from: u64, to: u64) {
    let n = choose("lines a", max + 1);
    let m = choose("lines b", max + 1);
    let a: Vec<u8> = (0..n).map(|_| un("a", 8, from, to) as u8).collect();
    let b: Vec<u8> = (0..m).map(|_| un("b", 8, from, to) as u8).collect();
    let la: Vec<Vec<u8>> = a.iter().map(|c| vec![b'/', b'/', *c]).collect();
    let lb: Vec<Vec<u8>> = b.iter().map(|c| vec![b'/', b'/', *c]).collect();
    let (ok, s) = diff(&join(&la, true), &join(&lb, false));
    check(ok, "two readable files are compared");
    match report(&s, &[]) {
        Some((r, ad)) => {
            let get = |v: Vec<Item>| -> Vec<u8> { v.into_iter().map(|i| if let Item::Letter(c) = i { c } else { 0 }).collect() };
            let (r, ad) = (get(r), get(ad));
            judge(&a, &b, &r, &ad);
            obs("removed", r.len() as u64);
            obs("added", ad.len() as u64);
            for c in r.iter().chain(&ad) {
                obs("line", *c as u64);
            }
            reach(if r.is_empty() && ad.is_empty() { "same" } else { "different" });
        }
        None => check(false, "a report of added and removed lines"),
    }
}
pub fn h_c04_letters() {
    letters(4, 97, 122)
}
pub fn h_c04_letters_deep() {
    letters(5, 97, 122)
}
/// longer files over two letters
fn concrete(max: usize) {
    let n = choose("lines a", max + 1);
    let m = choose("lines b", max + 1);
    let a: Vec<u8> = (0..n).map(|_| b'a' + choose("a", 2) as u8).collect();
    let b: Vec<u8> = (0..m).map(|_| b'a' + choose("b", 2) as u8).collect();
    kinds(&a, &b, &["//a", "//b"], &[])
}
fn kinds(a: &[u8], b: &[u8], lines: &[&str], marks: &[&str]) {
    let la: Vec<Vec<u8>> = a.iter().map(|c| lines[(*c - b'a') as usize].as_bytes().to_vec()).collect();
    let lb: Vec<Vec<u8>> = b.iter().map(|c| lines[(*c - b'a') as usize].as_bytes().to_vec()).collect();
    let (ok, s) = diff(&join(&la, true), &join(&lb, true));
    check(ok, "two readable files are compared");
    match report(&s, marks) {
        Some((r, ad)) => {
            let get = |v: Vec<Item>| -> Vec<u8> {
                v.into_iter()
                    .map(|i| match i {
                        Item::Letter(c) => c,
                        Item::Mark(k) => b'a' + k as u8,
                    })
                    .collect()
            };
            let (r, ad) = (get(r), get(ad));
            judge(a, b, &r, &ad);
            obs("removed", r.len() as u64);
            obs("added", ad.len() as u64);
            reach(if r.is_empty() && ad.is_empty() { "same" } else { "different" });
        }
        None => check(false, "a report of added and removed lines"),
    }
}
pub fn h_c04_two_letters() {
    concrete(5)
}
pub fn h_c04_two_letters_deep() {
    concrete(6)
}
/// all kinds of lines, also such that differ in one place only
fn mixed(max: usize, few: bool) {
    const LINES: [&str; 7] = [
        "{",
        "}",
        "\"k\" \"v1\"",
        "\"k\" \"v2\"",
        "\"k3\" \"v1x\"",
        "( 1 0 0 ) ( 1 0 1 ) ( 1 1 0 ) t 0 0 0 1 1",
        "( 1 0 0 ) ( 1 0 1 ) ( 1 1 0 ) t 0 0 0 1 2",
    ];
    // what of a line appears once in a report
    const MARKS: [&str; 7] = ["OpenBrace", "CloseBrace", "\"v1\"", "\"v2\"", "\"v1x\"", "t 0 0 0 1 1", "t 0 0 0 1 2"];
    let n = choose("lines a", max + 1);
    let m = choose("lines b", max + 1);
    let line = |name: &str| b'a' + if few { [0, 2, 3, 4, 6][choose(name, 5)] } else { choose(name, 7) } as u8;
    let a: Vec<u8> = (0..n).map(|_| line("a")).collect();
    let b: Vec<u8> = (0..m).map(|_| line("b")).collect();
    kinds(&a, &b, &LINES, &MARKS)
}
pub fn h_c04_mixed() {
    mixed(2, false)
}
pub fn h_c04_mixed_deep() {
    mixed(3, true)
}
/// a property line without its two strings; a missing file
pub fn h_c04_faults() {
    let bad = ["\"", "\"k\"", "\"k\" \"v", "\"k\" v"][choose("line", 4)];
    let good = b"{\n}\n";
    let data = [b"{\n".as_slice(), bad.as_bytes(), b"\n}\n"].concat();
    let r = match choose("where", 4) {
        0 => diff(&data, good).0,
        1 => diff(good, &data).0,
        2 => {
            let p = put("a.map", good);
            quarchitect::run_diff(&p, &path("missing.map")).is_ok()
        }
        _ => {
            let p = put("a.map", good);
            quarchitect::run_diff(&path("missing.map"), &p).is_ok()
        }
    };
    check(!r, "an unreadable file is an error");
    reach("end");
}

/// long files that differ in a few places
/// more than 256 lines in common
pub fn h_c04_far() {
    let line = |i: usize| vec![b'/', b'/', b'a' + (i % 26) as u8, b'a' + (i / 26) as u8];
    let t: Vec<Vec<u8>> = (0..258).map(line).collect();
    let (x, y) = (vec![b'/', b'/', b'X'], vec![b'/', b'/', b'Y']);
    let with = |at: usize, l: &Vec<u8>| {
        let mut v = t.clone();
        v.insert(at, l.clone());
        v
    };
    let at = [0, 129, 258][choose("at", 3)];
    let (a, b, gone, new) = match choose("edit", 3) {
        0 => (with(at, &x), t.clone(), 1, 0),
        1 => (t.clone(), with(at, &x), 0, 1),
        _ => (with(at, &x), with(258 - at, &y), 1, 1),
    };
    let (ok, s) = diff(&join(&a, true), &join(&b, true));
    check(ok, "two readable files are compared");
    match report(&s, &[]) {
        Some((r, ad)) => {
            check(r.len() == gone && r.iter().all(|i| matches!(i, Item::Letter(b'X'))), "only the line that is gone is removed");
            check(ad.len() == new && ad.iter().all(|i| matches!(i, Item::Letter(b'X' | b'Y'))), "only the new line is added");
            reach("end");
        }
        None => check(false, "the report can be read"),
    }
}
pub fn h_c04_long() {
    let n = 40;
    // some letters come back
    let base: Vec<u8> = (0..n).map(|i| b'a' + ((i * i + 3 * i) % 23) as u8).collect();
    let mut b = base.clone();
    for e in 0..1 + choose("edits", 2) {
        let at = if e == 0 { choose("at", n) } else { n - 7 };
        let at = at.min(b.len().max(1) - 1);
        if b.is_empty() {
            continue;
        }
        match choose("edit", if e == 0 { 7 } else { 2 }) {
            0 => {
                b.remove(at);
            }
            1 => b.insert(at, un("new", 8, 97, 98) as u8),
            2 => b[at] = b'z',
            3 => b.push(b[at]),
            4 => {
                let x = b.remove(at);
                b.insert(0, x);
            }
            5 => {
                b.truncate(at);
            }
            _ => {
                let x = b[at..].to_vec();
                b.extend_from_slice(&x);
            }
        }
    }
    for x in b.iter_mut() {
        *x = conc(*x as u64) as u8;
    }
    let (a, b) = if flag("other way") { (b, base) } else { (base, b) };
    let la: Vec<Vec<u8>> = a.iter().map(|c| vec![b'/', b'/', *c]).collect();
    let lb: Vec<Vec<u8>> = b.iter().map(|c| vec![b'/', b'/', *c]).collect();
    let (ok, s) = diff(&join(&la, true), &join(&lb, true));
    check(ok, "two readable files are compared");
    match report(&s, &[]) {
        Some((r, ad)) => {
            let get = |v: Vec<Item>| -> Vec<u8> { v.into_iter().map(|i| if let Item::Letter(c) = i { c } else { 0 }).collect() };
            let (r, ad) = (get(r), get(ad));
            // the longest common subsequence by its recurrence
            let mut t = vec![vec![0usize; b.len() + 1]; a.len() + 1];
            for i in 1..=a.len() {
                for j in 1..=b.len() {
                    t[i][j] = if a[i - 1] == b[j - 1] { t[i - 1][j - 1] + 1 } else { t[i - 1][j].max(t[i][j - 1]) };
                }
            }
            let l = t[a.len()][b.len()];
            check(r.len() + l == a.len() && ad.len() + l == b.len(), "no smaller report would do");
            // ways to go along both files, taking out the reported lines
            let mut at = vec![vec![false; ad.len() + 1]; r.len() + 1];
            at[0][0] = true;
            // (k lines kept, x of the first file gone, y of the second)
            let mut ok = false;
            for k in 0..=l {
                for x in 0..=r.len() {
                    for y in 0..=ad.len() {
                        let here = at[x][y]
                            || x > 0 && at[x - 1][y] && k + x <= a.len() && a[k + x - 1] == r[x - 1]
                            || y > 0 && at[x][y - 1] && k + y <= b.len() && b[k + y - 1] == ad[y - 1];
                        at[x][y] = here;
                    }
                }
                if k == l {
                    ok = at[r.len()][ad.len()];
                    break;
                }
                for x in 0..=r.len() {
                    for y in 0..=ad.len() {
                        at[x][y] = at[x][y] && k + x < a.len() && k + y < b.len() && a[k + x] == b[k + y];
                    }
                }
            }
            check(ok, "without the reported lines, in file order, both files are the same");
            reach(if r.is_empty() && ad.is_empty() { "same" } else { "different" });
        }
        None => check(false, "a report of added and removed lines"),
    }
}
