//! C21-C25: reading WAD and palette files.
use crate::prelude::*;
use quarchitect::wad::{self, palette::Palette, Color, TextureIndexed};

fn p32(v: &mut Vec<u8>, at: usize, x: u32) {
    let b = x.to_le_bytes();
    v[at..at + 4].copy_from_slice(&b);
}
fn arb(n: usize, name: &str) -> Vec<u8> {
    (0..n).map(|_| byte(name)).collect()
}
/// n zero bytes
fn blank(n: usize) -> Vec<u8> {
    vec![0; n]
}
fn head(v: &mut Vec<u8>, wad3: bool, n: u32, dir: u32) {
    v[0..3].copy_from_slice(b"WAD");
    v[3] = if wad3 { b'3' } else { b'2' };
    p32(v, 4, n);
    p32(v, 8, dir);
}
fn entry(v: &mut Vec<u8>, at: usize, off: u32, ty: u8, name: &[u8]) {
    p32(v, at, off);
    v[at + 12] = ty;
    v[at + 16..at + 16 + name.len()].copy_from_slice(name);
}
fn texhead(v: &mut Vec<u8>, at: usize, name: &[u8], w: u32, h: u32, o1: u32, o8: u32) {
    v[at..at + name.len()].copy_from_slice(name);
    p32(v, at + 16, w);
    p32(v, at + 20, h);
    p32(v, at + 24, o1);
    p32(v, at + 36, o8);
}
fn sizes(w: u32, h: u32) -> [usize; 4] {
    let a = (w * h) as usize;
    [a, a / 4, a / 16, a / 64]
}
fn level(t: &TextureIndexed, k: usize) -> Option<&Vec<u8>> {
    match k {
        0 => Some(&t.mip_data.mip0.0),
        1 => t.mip_data.mip1.as_ref().map(|m| &m.0),
        2 => t.mip_data.mip2.as_ref().map(|m| &m.0),
        _ => t.mip_data.mip3.as_ref().map(|m| &m.0),
    }
}
/// the name stored in 16 bytes: up to the first NUL
fn cname(b: &[u8]) -> String {
    let mut s = String::new();
    for c in b {
        if *c == 0 {
            break;
        }
        s.push(*c as char);
    }
    s
}
fn same(a: &[u8], b: &[u8]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let mut ok = true;
    for i in 0..a.len() {
        ok &= a[i] == b[i];
    }
    ok
}
fn lower(s: &str) -> Vec<u8> {
    s.bytes().map(|c| c + 32 * ((c >= b'A') & (c <= b'Z')) as u8).collect()
}

// ---------------------------------------------------------------- C21

/// three entries with arbitrary type bytes, pointing at two headers in any way
pub fn h_c21_directory() {
    let wad3 = flag("wad3");
    let dir_first = flag("dir_first");
    let (dir, t0) = if dir_first { (12usize, 12 + 96) } else { (12 + 100, 12usize) };
    // WAD3 palettes overlap the rest of the file; only their place matters
    let mut v = blank(12 + 96 + 100 + 800);
    head(&mut v, wad3, 3, dir as u32);
    let tex = [t0, t0 + 50];
    for (i, t) in tex.iter().enumerate() {
        let nm = [b'T', b'a' + i as u8];
        texhead(&mut v, *t, &nm, 1, 1, 40, 40);
        v[*t + 40] = 7 + i as u8;
    }
    let mut want = Vec::new();
    for i in 0..3 {
        let ty = byte("type");
        let to = choose("to", 2);
        entry(&mut v, dir + 32 * i, tex[to] as u32, ty, b"E");
        // the types of textures
        if (ty == b'C') | (ty == b'D') {
            want.push(to);
        }
    }
    let p = put("a.wad", &v);
    let r = match wad::read_textures(&p, None, 1) {
        Ok(r) => r,
        Err(_) => {
            check(false, "an intact WAD is read");
            return;
        }
    };
    obs("n", r.len() as u64);
    check(r.len() == want.len(), "one texture per C or D entry");
    for (t, w) in r.iter().zip(&want) {
        check(t.mip_texture.name == ["ta", "tb"][*w], "textures in directory order with their own header");
        check(t.mip_data.mip0.0 == [7 + *w as u8], "each texture has its own pixels");
        check(t.palette.is_some() == wad3, "palette for WAD3 only");
        reach("texture");
    }
}
/// many entries and a long whitelist
pub fn h_c21_many() {
    let n = 11;
    let wad3 = flag("wad3");
    let way = choose("way", 6);
    let listed = choose("list", 5);
    let mut v = blank(12);
    let t0 = v.len();
    let mut want = Vec::new();
    let name = |i: usize| format!("{}{}", ["tex", "Tex", "+0", "*w"][i % 4], i);
    let list: Vec<String> = match listed {
        0 => vec![],
        1 => vec![],
        2 => (0..n).rev().map(|i| if i % 5 == 4 { name(i).to_uppercase() } else { name(i) }).collect(),
        3 => vec!["tex0".into(), "tex1".into(), "tex".into(), "tex99".into(), "tex8".into(), "+06".into()],
        _ => (0..n).filter(|i| i % 3 != 1).map(|i| name(i)).collect(),
    };
    let filter = listed != 0;
    let mut dir = Vec::new();
    for i in 0..n {
        let to = t0 + 42 * i;
        let ty = match way {
            0 => b'D',
            1 => b'C',
            2 => [b'D', b'@', b'C', b'B'][i % 4],
            3 => if i == 9 { b'E' } else { b'D' },
            4 => if i == 9 { b'C' } else { b'@' },
            _ => if i == 8 { byte("type") } else { b'@' + (i % 5) as u8 },
        };
        dir.push((to, ty));
        v.resize(to + 42, 0);
        texhead(&mut v, to, format!("H{}", i).as_bytes(), 1, 1, 40, 40);
        v[to + 40] = 7 + i as u8;
        if ((ty == b'C') | (ty == b'D')) && (!filter || list.contains(&name(i))) {
            want.push(i);
        }
    }
    let at = v.len();
    v.resize(at + 32 * n + 800, 0);
    for i in 0..n {
        entry(&mut v, at + 32 * i, dir[i].0 as u32, dir[i].1, name(i).as_bytes());
    }
    head(&mut v, wad3, n as u32, at as u32);
    let p = put("a.wad", &v);
    match wad::read_textures(&p, if filter { Some(list) } else { None }, 1) {
        Ok(r) => {
            check(r.len() == want.len(), "one texture per listed C or D entry");
            for (t, w) in r.iter().zip(&want) {
                check(t.mip_texture.name == format!("h{}", w), "textures in directory order with their own header");
                check(t.mip_data.mip0.0 == [7 + *w as u8], "each texture has its own pixels");
                check(t.palette.is_some() == wad3, "palette for WAD3 only");
            }
            reach("end");
        }
        Err(_) => check(false, "an intact WAD is read"),
    }
}
/// arbitrary entry names against a whitelist of 0 to 2 names
pub fn h_c21_whitelist() {
    let mut v = blank(12 + 64 + 50);
    head(&mut v, false, 2, 12);
    let t = 12 + 64;
    texhead(&mut v, t, b"tex", 1, 1, 40, 40);
    let mut names = Vec::new();
    for i in 0..2 {
        let mut nm = [0u8; 16];
        for c in nm.iter_mut().take(2) {
            *c = un("ec", 8, 0, 127) as u8;
        }
        // bytes behind a NUL do not belong to the name
        nm[3] = b'x';
        entry(&mut v, 12 + 32 * i, t as u32, b'D', &nm);
        v[12 + 32 * i + 4] = i as u8;
        names.push(nm);
    }
    let n = choose("listed", 3);
    let mut list = Vec::new();
    for i in 0..n {
        let len = if i == 0 { choose("len", 3) } else { 1 };
        let s: String = (0..len).map(|_| un("wc", 8, 1, 127) as u8 as char).collect();
        list.push(s);
    }
    let p = put("a.wad", &v);
    let r = match wad::read_textures(&p, Some(list.clone()), 1) {
        Ok(r) => r,
        Err(_) => {
            check(false, "an intact WAD is read");
            return;
        }
    };
    let mut want = 0;
    for nm in &names {
        let s = cname(nm);
        let mut on = false;
        for l in &list {
            on |= same(s.as_bytes(), l.as_bytes());
        }
        if on {
            want += 1;
            reach("listed");
        } else {
            reach("not listed");
        }
    }
    obs("n", r.len() as u64);
    check(r.len() == want, "exactly the entries whose name is on the whitelist");
}
/// which of two entries is taken: told apart by their headers
pub fn h_c21_whitelist_which() {
    let mut v = blank(12 + 64 + 100);
    head(&mut v, true, 2, 12);
    v.resize(12 + 64 + 100 + 800, 9);
    let names = [un("a", 8, b'A' as u64, b'z' as u64) as u8, un("b", 8, b'A' as u64, b'z' as u64) as u8];
    for i in 0..2 {
        let t = 12 + 64 + 50 * i;
        texhead(&mut v, t, &[b'N', b'0' + i as u8], 1, 1, 40, 40);
        // the header's own name may be on the list: only the entry's counts
        entry(&mut v, 12 + 32 * i, t as u32, b'C', &[names[i], b'7']);
    }
    let w = un("w", 8, b'A' as u64, b'z' as u64) as u8;
    let mut list = vec!["n0".to_string(), "N1".to_string()];
    list.push(String::from_utf8(vec![w, b'7']).unwrap());
    let p = put("a.wad", &v);
    let r = match wad::read_textures(&p, Some(list), 1) {
        Ok(r) => r,
        Err(_) => {
            check(false, "an intact WAD is read");
            return;
        }
    };
    let mut k = 0;
    for i in 0..2 {
        if names[i] == w {
            check(k < r.len() && r[k].mip_texture.name == ["n0", "n1"][i], "the listed entry's texture in directory order");
            k += 1;
            reach("match");
        }
    }
    check(r.len() == k, "no entry that is not listed");
    obs("n", r.len() as u64);
}
/// every field of one header, name bytes and offsets arbitrary
pub fn h_c21_fields() {
    let pad = choose("pad", 3);
    let t = 12 + 32 + pad;
    let mut v = blank(t + 60);
    head(&mut v, false, 1, 12);
    // unused fields of the entry hold anything
    for i in [4, 5, 8, 11, 13, 14, 15] {
        v[12 + i] = byte("entry");
    }
    let ty = if flag("d") { b'D' } else { b'C' };
    entry(&mut v, 12, t as u32, ty, b"any");
    let mut nm = [0u8; 16];
    for c in nm.iter_mut().take(3) {
        *c = un("nc", 8, 0, 127) as u8;
    }
    // the rest either ends the name or fills the field
    if flag("long") {
        for c in nm.iter_mut().skip(3) {
            *c = b'Q';
        }
    }
    let (w, h) = [(1u32, 1u32), (2, 1), (1, 3)][choose("size", 3)];
    let o1 = un("o1", 32, 40, 48) as u32;
    let o2 = un("o2", 32, 0, 0xffff_ffff) as u32;
    let o4 = un("o4", 32, 0, 0xffff_ffff) as u32;
    let o8 = un("o8", 32, 0, 0xffff_ffff) as u32;
    texhead(&mut v, t, &nm, w, h, o1, o8);
    p32(&mut v, t + 28, o2);
    p32(&mut v, t + 32, o4);
    for i in 0..16 {
        v[t + 40 + i] = byte("pix");
    }
    let p = put("a.wad", &v);
    let r = match wad::read_textures(&p, None, 1) {
        Ok(r) => r,
        Err(_) => {
            check(false, "an intact WAD is read");
            return;
        }
    };
    check(r.len() == 1, "one texture");
    let m = &r[0].mip_texture;
    check(same(m.name.as_bytes(), &lower(&cname(&nm))), "lower-cased name up to the first NUL");
    check(m.width == w && m.height == h, "size");
    check(m.offset1 == o1, "offset 1");
    check(m.offset2 == o2, "offset 2");
    check(m.offset4 == o4, "offset 4");
    check(m.offset8 == o8, "offset 8");
    check(r[0].palette.is_none(), "WAD2 has no palette");
    obs("len", m.name.len() as u64);
    reach("end");
}

// ---------------------------------------------------------------- C22

fn mips(dims: &[(u32, u32)]) {
    let (w, h) = dims[choose("size", dims.len())];
    let levels = 1 + choose("levels", 4);
    let wad3 = flag("wad3");
    let s = sizes(w, h);
    let total: usize = s.iter().sum();
    let pad = choose("pad", 2) * 5;
    let t = 12 + 32 + pad;
    let o1 = un("o1", 32, 40, 43) as u32;
    let mut v = blank(t + 40);
    v.extend(arb(4 + total, "pix"));
    // the last level's offset as the file states it; palettes are C23's subject
    let o8 = (40 + s[0] + s[1] + s[2]) as u32;
    let n = t + o8 as usize + s[3] + 2 + 768;
    if v.len() < n {
        v.resize(n, 3);
    }
    head(&mut v, wad3, 1, 12);
    entry(&mut v, 12, t as u32, b'D', b"e");
    texhead(&mut v, t, b"t", w, h, o1, o8);
    let p = put("a.wad", &v);
    let r = match wad::read_textures(&p, None, levels) {
        Ok(r) => r,
        Err(_) => {
            check(false, "an intact WAD is read");
            return;
        }
    };
    check(r.len() == 1, "one texture");
    let mut at = 0;
    for k in 0..4 {
        let l = level(&r[0], k);
        check(l.is_some() == (k < levels), "exactly the requested levels");
        if let Some(l) = l {
            check(l.len() == s[k], "level size");
            obs("len", l.len() as u64);
            for i in 0..l.len().min(s[k]) {
                // byte at t + o1 + at + i
                let mut x = 0u64;
                for d in 0..4usize {
                    x = ite(o1 == 40 + d as u32, v[t + 40 + d + at + i] as u64, x);
                }
                check(l[i] as u64 == x, "level bytes follow on directly from the previous level");
            }
            at += s[k];
        }
    }
    if levels == 4 {
        reach("four levels");
    }
}
pub fn h_c22_mips() {
    mips(&[(1, 1), (2, 2), (4, 2), (3, 3), (4, 4), (16, 1), (8, 8)])
}
pub fn h_c22_mips_deep() {
    mips(&[(1, 1), (2, 2), (4, 2), (3, 3), (4, 4), (16, 1), (8, 8), (5, 7), (16, 8), (16, 16), (0, 4), (32, 8)])
}
/// two textures of different size: each gets its own levels
pub fn h_c22_two() {
    let levels = 1 + choose("levels", 4);
    let dims = if flag("swap") { [(4u32, 4u32), (8, 8)] } else { [(8, 8), (2, 4)] };
    let mut v = blank(12 + 64);
    let mut pix = Vec::new();
    for i in 0..2 {
        let t = v.len();
        let s = sizes(dims[i].0, dims[i].1);
        let total: usize = s.iter().sum();
        v.resize(t + 40, 0);
        let b = arb(total, "pix");
        v.extend(&b);
        pix.push(b);
        texhead(&mut v, t, b"t", dims[i].0, dims[i].1, 40, 40);
        entry(&mut v, 12 + 32 * i, t as u32, b'D', b"e");
    }
    head(&mut v, false, 2, 12);
    let p = put("a.wad", &v);
    let r = match wad::read_textures(&p, None, levels) {
        Ok(r) => r,
        Err(_) => {
            check(false, "an intact WAD is read");
            return;
        }
    };
    check(r.len() == 2, "two textures");
    for i in 0..2 {
        let s = sizes(dims[i].0, dims[i].1);
        let mut at = 0;
        for k in 0..4 {
            let l = level(&r[i], k);
            check(l.is_some() == (k < levels), "exactly the requested levels");
            if let Some(l) = l {
                check(same(l, &pix[i][at..at + s[k]]), "level bytes of its own texture");
            }
            at += s[k];
        }
    }
    reach("end");
}

// ---------------------------------------------------------------- C23

/// a WAD3 texture's own palette is the 768 bytes two bytes behind the last level
pub fn h_c23_own() {
    let (w, h) = [(1u32, 1u32), (2, 2), (8, 8), (8, 16)][choose("size", 4)];
    let levels = 1 + choose("levels", 4);
    let s = sizes(w, h);
    let t = 12 + 32;
    let lo8 = (40 + s[0] + s[1] + s[2]) as u32;
    let o8 = un("o8", 32, lo8 as u64, lo8 as u64 + 3) as u32;
    let mut v = blank(t + lo8 as usize + s[3]);
    for i in 0..s.iter().sum::<usize>() {
        v[t + 40 + i] = (i * 37) as u8;
    }
    v.extend(arb(2 + 3 + 768, "pal"));
    head(&mut v, true, 1, 12);
    entry(&mut v, 12, t as u32, b'C', b"e");
    texhead(&mut v, t, b"t", w, h, 40, o8);
    let p = put("a.wad", &v);
    let r = match wad::read_textures(&p, None, levels) {
        Ok(r) => r,
        Err(_) => {
            check(false, "an intact WAD is read");
            return;
        }
    };
    check(r.len() == 1, "one texture");
    let pal = match &r[0].palette {
        Some(x) => x.0,
        None => {
            check(false, "a WAD3 texture has a palette");
            return;
        }
    };
    let mut ok = true;
    for i in 0..768usize {
        let mut x = 0u64;
        for d in 0..4u32 {
            x = ite(o8 == lo8 + d, v[t + (lo8 + d) as usize + s[3] + 2 + i] as u64, x);
        }
        let c = pal[i / 3];
        ok &= [c.0, c.1, c.2][i % 3] as u64 == x;
    }
    check(ok, "palette bytes");
    reach("end");
}
/// RGB conversion of arbitrary pixels with every combination of palettes
pub fn h_c23_rgb() {
    let own = flag("own");
    let given = flag("given");
    let levels = 1 + choose("levels", 4);
    let (w, h) = (8u32, 8u32);
    let s = sizes(w, h);
    let total: usize = s.iter().sum();
    let t = 12 + 32;
    let mut v = blank(t + 40);
    // pixels: three arbitrary ones per level, the rest fixed
    let mut pix: Vec<u8> = (0..total).map(|i| (i * 7 + 1) as u8).collect();
    let mut at = 0;
    for k in 0..4 {
        for i in [0, s[k] / 2, s[k] - 1] {
            pix[at + i] = byte("pix");
        }
        at += s[k];
    }
    v.extend(&pix);
    let o8 = (40 + s[0] + s[1] + s[2]) as u32;
    let mut ownpal = Vec::new();
    if own {
        v.extend(blank(2));
        ownpal = arb(768, "own_pal");
        v.extend(&ownpal);
    }
    head(&mut v, own, 1, 12);
    entry(&mut v, 12, t as u32, b'C', b"e");
    let name: &[u8] = [&b"T"[..], b"{fence", b"*lava1", b"+0button", b"sky"][if own { choose("name", 5) } else { 0 }];
    texhead(&mut v, t, name, w, h, 40, o8);
    let p = put("a.wad", &v);
    let mut r = match wad::read_textures(&p, None, levels) {
        Ok(r) => r,
        Err(_) => {
            check(false, "an intact WAD is read");
            return;
        }
    };
    let mut supplied = None;
    let mut suppal = Vec::new();
    if given {
        suppal = arb(768, "given_pal");
        let mut a = [Color(0, 0, 0); 256];
        for i in 0..256 {
            a[i] = Color(suppal[3 * i], suppal[3 * i + 1], suppal[3 * i + 2]);
        }
        supplied = Some(Palette(a));
    }
    check(r.len() == 1, "one texture");
    let out = r.remove(0).into_rgb(supplied);
    if !own && !given {
        check(out.is_err(), "no palette at all is an error");
        reach("no palette");
        return;
    }
    let out = match out {
        Ok(o) => o,
        Err(_) => {
            check(false, "conversion with a palette succeeds");
            return;
        }
    };
    let pal = if own { &ownpal } else { &suppal };
    check(out.mip_texture.name.as_bytes() == &lower(std::str::from_utf8(name).unwrap())[..] && out.mip_texture.width == w && out.mip_texture.height == h, "header kept");
    let m = &out.mip_data;
    let got = [Some(&m.mip0), m.mip1.as_ref(), m.mip2.as_ref(), m.mip3.as_ref()];
    let mut at = 0;
    for k in 0..4 {
        check(got[k].is_some() == (k < levels), "exactly the present levels");
        if let Some(g) = got[k] {
            check(g.len() == s[k], "one colour per pixel");
            for i in 0..s[k].min(g.len()) {
                let idx = pix[at + i] as usize;
                let mut ok = true;
                ok &= g[i].0 == pal[3 * idx];
                ok &= g[i].1 == pal[3 * idx + 1];
                ok &= g[i].2 == pal[3 * idx + 2];
                check(ok, "the palette colour of every pixel");
            }
        }
        at += s[k];
    }
    reach(if own { "own" } else { "supplied" });
}
/// a palette file of any length around 768
pub fn h_c23_palette_file() {
    let n = [0usize, 1, 767, 768, 769, 800][choose("len", 6)];
    let v = arb(n, "b");
    let p = put("a.lmp", &v);
    match wad::palette::read_palette(&p) {
        Ok(Palette(c)) => {
            check(n >= 768, "a short palette file is refused");
            if n < 768 {
                return;
            }
            let mut ok = true;
            for i in 0..256 {
                ok &= c[i].0 == v[3 * i];
                ok &= c[i].1 == v[3 * i + 1];
                ok &= c[i].2 == v[3 * i + 2];
            }
            check(ok, "256 red, green, blue triples in order");
            reach("read");
        }
        Err(_) => {
            check(n < 768, "a full palette file is read");
            reach("refused");
        }
    }
}

// ---------------------------------------------------------------- C24

/// a sound file with one texture; returns (bytes, needed length)
fn sound(wad3: bool, levels: usize, w: u32, h: u32) -> (Vec<u8>, usize) {
    let s = sizes(w, h);
    let total: usize = s.iter().take(levels).sum();
    let t = 12 + 32;
    let o8 = (40 + s[0] + s[1] + s[2]) as u32;
    let mut v = blank(t + 40 + s.iter().sum::<usize>());
    if wad3 {
        v.resize(v.len() + 2 + 768, 5);
    }
    head(&mut v, wad3, 1, 12);
    entry(&mut v, 12, t as u32, b'D', b"e");
    texhead(&mut v, t, b"t", w, h, 40, o8);
    let need = if wad3 { v.len() } else { t + 40 + total };
    (v, need)
}
/// cut off anywhere
pub fn h_c24_truncated() {
    let wad3 = flag("wad3");
    let levels = 1 + choose("levels", 4);
    let (v, need) = sound(wad3, levels, 8, 8);
    // every length of the fixed parts, and around each boundary
    let len = if wad3 && flag("late") {
        un("len", 32, 44 + 40 + 64 + 16 + 4 + 1, v.len() as u64) as usize
    } else {
        un("len", 32, 0, 44 + 40 + 64 + 16 + 4 + 1) as usize
    };
    let len = conc(len as u64) as usize;
    let p = put("a.wad", &v[..len.min(v.len())]);
    match wad::read_textures(&p, None, levels) {
        Ok(r) => {
            check(len >= need, "a cut-off WAD is an error");
            check(r.len() == 1, "no partial list");
            check(r[0].mip_data.mip0.0.len() == 64, "no partial pixels");
            reach("read");
        }
        Err(_) => {
            check(len < need, "a complete WAD is read");
            reach("refused");
        }
    }
}
/// magic arbitrary
pub fn h_c24_magic() {
    let i = choose("first", 4);
    let j = choose("second", 4);
    magic(&[i, j])
}
pub fn h_c24_magic_deep() {
    magic(&[0, 1, 2, 3])
}
fn magic(at: &[usize]) {
    let (mut v, _) = sound(true, 1, 1, 1);
    for i in at {
        v[*i] = byte("magic");
    }
    let good = (v[0] == b'W') & (v[1] == b'A') & (v[2] == b'D') & ((v[3] == b'2') | (v[3] == b'3'));
    let p = put("a.wad", &v);
    match wad::read_textures(&p, None, 1) {
        Ok(_) => {
            check(good, "an unknown magic is an error");
            reach("read");
        }
        Err(_) => {
            check(!good, "a known magic is read");
            reach("refused");
        }
    }
}
/// number of entries and directory offset arbitrary
pub fn h_c24_directory() {
    let (mut v, _) = sound(false, 1, 2, 2);
    let n = un("n", 32, 0, 0xffff_ffff) as u32;
    let d = un("dir", 32, 0, 0xffff_ffff) as u32;
    p32(&mut v, 4, n);
    p32(&mut v, 8, d);
    // a directory that fits must be read from where it is: only the one at 12 is sound
    assume((d == 12) | (d as u64 + 32 > v.len() as u64));
    let p = put("a.wad", &v);
    let full = 12 + 32 * n as u64 <= v.len() as u64;
    match wad::read_textures(&p, None, 1) {
        Ok(r) => {
            check((n == 0) | ((d == 12) & full), "a directory outside the file is an error");
            check((r.len() as u32) <= n, "no texture without entry");
            reach("read");
        }
        Err(_) => {
            check(n != 0, "an empty directory is no error");
            check(!((d == 12) & (n <= 1)), "a sound directory is read");
            reach("refused");
        }
    }
}
/// entry offset, first and last mip offset arbitrary
pub fn h_c24_offsets() {
    let wad3 = flag("wad3");
    let (mut v, _) = sound(wad3, 1, 2, 2);
    let which = choose("which", 3);
    let x = un("x", 32, 0, 0xffff_ffff) as u32;
    let t = 44usize;
    match which {
        0 => p32(&mut v, 12, x),
        1 => p32(&mut v, t + 24, x),
        _ => p32(&mut v, t + 36, x),
    }
    let n = v.len() as u64;
    // values that keep everything inside the file describe another sound file
    let base = if which == 0 { x as u64 } else { 44 };
    let outside = match which {
        0 => base + 40 > n,
        1 => base + x as u64 + 4 > n,
        _ => wad3 & (base + x as u64 + 2 + 768 > n),
    };
    let harmless = match which {
        0 => x == 44,
        1 => base + x as u64 + 4 <= n,
        _ => !outside,
    };
    assume(outside | harmless);
    let p = put("a.wad", &v);
    match wad::read_textures(&p, None, 1) {
        Ok(r) => {
            check(!outside, "an offset outside the file is an error");
            check(r.len() == 1, "no partial list");
            reach("read");
        }
        Err(_) => {
            check(!harmless, "a sound WAD is read");
            reach("refused");
        }
    }
}
/// width and height arbitrary
pub fn h_c24_size() {
    let wad3 = flag("wad3");
    let levels = if flag("all_levels") { 4 } else { 1 };
    let (mut v, _) = sound(wad3, levels, 4, 4);
    let t = 44usize;
    let w = un("w", 32, 0, 0xffff_ffff) as u32;
    let h = if flag("h_any") { un("h", 32, 0, 0xffff_ffff) as u32 } else { 4 };
    p32(&mut v, t + 16, w);
    p32(&mut v, t + 20, h);
    let px = w as u64 * h as u64;
    // sizes that do not fit in the file at all, or the original one
    let outside = px > v.len() as u64;
    let same = (w == 4) & (h == 4);
    assume(outside | same);
    let p = put("a.wad", &v);
    match wad::read_textures(&p, None, levels) {
        Ok(r) => {
            check(!outside, "a size beyond the file is an error");
            check(r.len() == 1, "no partial list");
            reach("read");
        }
        Err(_) => {
            check(outside, "a sound WAD is read");
            reach("refused");
        }
    }
}
/// the second of two textures is damaged: no partial list
pub fn h_c24_partial() {
    let mut v = blank(12 + 64 + 50 + 50);
    head(&mut v, false, 2, 12);
    for i in 0..2 {
        let t = 12 + 64 + 50 * i;
        entry(&mut v, 12 + 32 * i, t as u32, b'D', &[b'a' + i as u8]);
        texhead(&mut v, t, &[b'a' + i as u8], 2, 2, 40, 40);
    }
    let bad = choose("bad", 2);
    let how = choose("how", 3);
    let far = un("far", 32, 4096, 0xffff_ffff) as u32;
    let t = 12 + 64 + 50 * bad;
    match how {
        0 => p32(&mut v, 12 + 32 * bad, far),
        1 => p32(&mut v, t + 24, far),
        _ => p32(&mut v, t + 16, far),
    }
    let wl = flag("whitelisted");
    let p = put("a.wad", &v);
    let list = if wl { Some(vec![["b", "a"][bad].to_string()]) } else { None };
    match wad::read_textures(&p, list, 1) {
        Ok(r) => {
            check(wl, "one damaged texture fails the call");
            check(r.len() == 1, "the unwanted texture is left out");
            reach("not wanted");
        }
        Err(_) => {
            check(!wl, "a damaged texture that is not wanted does no harm");
            reach("refused");
        }
    }
}
pub fn h_c24_missing() {
    let l = 1 + choose("levels", 4);
    check(wad::read_textures(&path("missing/a.wad"), None, l).is_err(), "a missing WAD is an error");
    check(wad::palette::read_palette(&path("missing/a.lmp")).is_err(), "a missing palette is an error");
    check(wad::read_textures(&path("dir"), None, l).is_err(), "a directory is an error");
    check(wad::palette::read_palette(&path("dir")).is_err(), "a directory is no palette");
    let p = put("empty.wad", &[]);
    check(wad::read_textures(&p, None, l).is_err(), "an empty WAD is an error");
    reach("end");
}

// ---------------------------------------------------------------- C25

fn scheduled(n: usize, pre: u64, fail: bool) {
    let wad3 = flag("wad3");
    let mut v = blank(12 + 32 * n);
    let mut want = Vec::new();
    let dims = [(1u32, 2u32), (2, 2), (1, 1), (3, 1), (2, 1), (1, 3), (2, 3), (1, 4), (4, 1)];
    for i in 0..n {
        let (w, h) = dims[i];
        let s = sizes(w, h);
        let t = v.len();
        entry(&mut v, 12 + 32 * i, t as u32, b'D', b"e");
        v.resize(t + 40, 0);
        let pix = arb(s.iter().sum(), "pix");
        v.extend(&pix);
        let o8 = (40 + s[0] + s[1] + s[2]) as u32;
        texhead(&mut v, t, &[b'n', b'0' + i as u8], w, h, 40, o8);
        let mut first = [0u8; 3];
        if wad3 {
            v.resize(v.len() + 2, 0);
            for c in first.iter_mut() {
                *c = byte("pal");
            }
            v.extend(&first);
            v.resize(v.len() + 765, i as u8);
        }
        want.push((pix[..s[0]].to_vec(), first));
    }
    head(&mut v, wad3, n as u32, 12);
    let bad = if fail { choose("bad", n) } else { n };
    if fail {
        let t = u32::from_le_bytes([v[12 + 32 * bad], v[13 + 32 * bad], 0, 0]) as usize;
        p32(&mut v, t + 24, 100_000);
    }
    let p = put("a.wad", &v);
    preemptions(pre);
    parallel(true);
    let r = wad::read_textures(&p, None, 1);
    parallel(false);
    match r {
        Err(_) => {
            check(fail, "sound WAD is read under every schedule");
            reach("refused");
        }
        Ok(r) => {
            check(!fail, "a failing read fails the call under every schedule");
            check(r.len() == n, "every texture, under every schedule");
            for i in 0..n.min(r.len()) {
                check(r[i].mip_texture.name.as_bytes() == [b'n', b'0' + i as u8], "textures stay at their directory position");
                check(same(&r[i].mip_data.mip0.0, &want[i].0), "each texture has its own pixels");
                check(r[i].palette.is_some() == wad3, "palette for WAD3 only");
                if let Some(p) = &r[i].palette {
                    let c = p.0[0];
                    check((c.0 == want[i].1[0]) & (c.1 == want[i].1[1]) & (c.2 == want[i].1[2]), "each texture has its own palette");
                    check(p.0[255].0 == i as u8, "each texture has its own palette to the end");
                }
            }
            reach("read");
        }
    }
}
/// entries of which several lead to one texture
fn sharing(pre: u64) {
    let wad3 = flag("wad3");
    let places = [[0usize, 0, 1], [0, 1, 0], [0, 1, 1], [0, 0, 0]][choose("places", 4)];
    let mut v = blank(12 + 32 * 3);
    let mut want = Vec::new();
    let mut at = Vec::new();
    for i in 0..2u32 {
        let (w, h) = (1 + i, 2);
        let s = sizes(w, h);
        let t = v.len();
        at.push(t as u32);
        v.resize(t + 40, 0);
        let pix = arb(s.iter().sum(), "pix");
        v.extend(&pix);
        texhead(&mut v, t, &[b'n', b'0' + i as u8], w, h, 40, (40 + s[0] + s[1] + s[2]) as u32);
        let mut first = 0;
        if wad3 {
            first = byte("pal");
            v.extend([0, 0, first]);
            v.resize(v.len() + 767, i as u8);
        }
        want.push((pix[..s[0]].to_vec(), first));
    }
    for i in 0..3 {
        entry(&mut v, 12 + 32 * i, at[places[i]], b'D', b"e");
    }
    head(&mut v, wad3, 3, 12);
    let p = put("a.wad", &v);
    preemptions(pre);
    parallel(true);
    let r = wad::read_textures(&p, None, 1);
    parallel(false);
    let r = match r {
        Ok(r) => r,
        Err(_) => {
            check(false, "sound WAD is read under every schedule");
            return;
        }
    };
    check(r.len() == 3, "every texture, under every schedule");
    for i in 0..r.len().min(3) {
        let k = places[i];
        check(same(&r[i].mip_data.mip0.0, &want[k].0), "each texture has its own pixels");
        check(r[i].palette.is_some() == wad3, "palette for WAD3 only");
        if let Some(p) = &r[i].palette {
            check(p.0[0].0 == want[k].1, "each texture has its own palette");
            check(p.0[255].0 == k as u8, "each texture has its own palette to the end");
        }
        reach("read");
    }
}
pub fn h_c25_shared() {
    sharing(2)
}
pub fn h_c25_two() {
    scheduled(2, 4, false)
}
pub fn h_c25_three() {
    scheduled(3, 2, false)
}
pub fn h_c25_fail() {
    scheduled(3, 1, true)
}
/// many textures, one worker after the other
pub fn h_c25_many() {
    scheduled(6, 0, false)
}
pub fn h_c25_deep() {
    scheduled(4, 2, false)
}
pub fn h_c25_three_deep() {
    scheduled(3, 4, false)
}
