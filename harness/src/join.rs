//! C15: what joining vertices keeps.
use crate::mesh::{flat_shape, shape, BOX, PYRAMID};
use crate::prelude::*;
use crate::scene::*;

/// everything a triangle corner looks like
#[derive(Clone, Copy)]
struct Corner {
    a: [f32; 12],
    color: Option<V>,
    uv: bool,
}
fn same_f(a: f32, b: f32) -> bool {
    a == b
}
impl Corner {
    /// numbers agree (without branching)
    fn same(&self, o: &Corner) -> bool {
        if self.uv != o.uv || self.color.is_some() != o.color.is_some() {
            return false;
        }
        self.same_but_color(o)
            & match (self.color, o.color) {
                (Some(a), Some(b)) => same_f(a[0], b[0]) & same_f(a[1], b[1]) & same_f(a[2], b[2]),
                _ => true,
            }
    }
    fn same_but_color(&self, o: &Corner) -> bool {
        let mut ok = self.uv == o.uv;
        for i in 0..12 {
            ok &= same_f(self.a[i], o.a[i]);
        }
        ok
    }
}
fn stored(s: &MeshSurface) -> Option<Vec<Corner>> {
    let n = s.vertices.len();
    let ok = s.normals.len() == n
        && s.tangents.len() == n
        && s.uvs.as_ref().map_or(true, |u| u.len() == n)
        && s.colors.as_ref().map_or(true, |c| c.len() == n);
    check(ok, "all lists are as long as the vertex list");
    if !ok {
        return None;
    }
    let mut r = Vec::new();
    for i in 0..n {
        let (p, m, t) = (v3(s.vertices[i]), v3(s.normals[i]), v3(s.tangents[i].0));
        let u = s.uvs.as_ref().map(|u| v2(u[i]));
        let v = u.unwrap_or([0.0; 2]);
        r.push(Corner {
            a: [p[0], p[1], p[2], m[0], m[1], m[2], t[0], t[1], t[2], s.tangents[i].1, v[0], v[1]],
            color: s.colors.as_ref().map(|c| [c[i].r, c[i].g, c[i].b]),
            uv: u.is_some(),
        });
    }
    Some(r)
}
pub struct Job {
    /// faces of each brush with the texture of each
    pub brushes: Vec<Vec<Face>>,
    pub phong: Option<&'static str>,
    pub angle: Option<&'static str>,
}
impl Job {
    fn map(&self, own: bool) -> Map {
        let mut m = Map::new();
        m.class("worldspawn");
        if let Some(p) = self.phong {
            m.prop("_phong", p);
        }
        if let Some(p) = self.angle {
            m.prop("_phong_angle", p);
        }
        for (b, fs) in self.brushes.iter().enumerate() {
            let fs: Vec<Face> = fs
                .iter()
                .enumerate()
                .map(|(i, f)| {
                    let mut f = f.clone();
                    if own {
                        f.tex = format!("{}{}{}", f.tex, (97 + b as u8) as char, (97 + i as u8) as char);
                    }
                    f
                })
                .collect();
            m.brush(&fs);
        }
        m.close();
        m
    }
    pub fn run(&self) {
        let cfg = || Cfg::new().class("worldspawn", VisualType::Mesh, CollisionType::None);
        let size = |t: &str| if t == "bb" { (32, 16) } else { (64, 32) };
        let mut c = cfg();
        let mut texs: Vec<String> = Vec::new();
        for f in self.brushes.iter().flatten() {
            if !texs.contains(&f.tex) {
                texs.push(f.tex.clone());
            }
        }
        for t in texs.iter().filter(|t| *t != "none") {
            c = c.texture(t, size(t).0, size(t).1);
        }
        let got = match scene(&self.map(false), c) {
            Some(s) => s,
            None => return,
        };
        // every face on its own, nothing to join
        let mut c = cfg();
        for (b, fs) in self.brushes.iter().enumerate() {
            for (i, f) in fs.iter().enumerate() {
                let t = format!("{}{}{}", f.tex, (97 + b as u8) as char, (97 + i as u8) as char);
                let s = size(&f.tex);
                if f.tex != "none" {
                    c = c.texture(&t, s.0, s.1);
                }
            }
        }
        let lone = match scene(&self.map(true), c) {
            Some(s) => s,
            None => return,
        };
        let lone = surfaces(&lone[0]);
        let got = surfaces(&got[0]);
        for t in texs.iter().filter(|t| *t != "none") {
            let s: Vec<&MeshSurface> = got.iter().filter(|s| s.texture.as_deref() == Some(t)).collect();
            if s.len() != 1 {
                check(false, "one surface for a texture");
                continue;
            }
            let s = s[0];
            let st = match stored(s) {
                Some(v) => v,
                None => continue,
            };
            let mut used = vec![false; st.len()];
            let mut at = 0;
            let mut base = 0;
            let mut colored = true;
            // no face that merely touches the solid
            let mut tidy = true;
            for (b, fs) in self.brushes.iter().enumerate() {
                let start = at;
                for (i, f) in fs.iter().enumerate() {
                    if f.tex != *t {
                        continue;
                    }
                    colored &= !f.extra.is_empty();
                    let name = format!("{}{}{}", f.tex, (97 + b as u8) as char, (97 + i as u8) as char);
                    let one = match lone.iter().find(|x| x.texture.as_deref() == Some(&name)) {
                        Some(x) => x,
                        None => continue, // beyond the solid
                    };
                    tidy &= !one.indices.is_empty();
                    let own = match stored(one) {
                        Some(v) => v,
                        None => continue,
                    };
                    for k in &one.indices {
                        let ok = at < s.indices.len() && s.indices[at] < st.len() && *k < own.len();
                        check(ok, "each corner is there");
                        if !ok {
                            return;
                        }
                        let mut want = own[*k];
                        let c = st[s.indices[at]];
                        used[s.indices[at]] = true;
                        if c.color.is_none() {
                            want.color = None;
                        }
                        check(c.same(&want), "a corner looks like that of its face");
                        at += 1;
                    }
                }
                // stored once within a brush, apart from other brushes
                let ix = &s.indices[start..at];
                if ix.is_empty() {
                    continue;
                }
                let lo = ix.iter().min().copied().unwrap_or(0);
                let hi = ix.iter().max().copied().unwrap_or(0);
                check(lo == base, "corners of different brushes are not joined");
                base = hi + 1;
                for i in lo..=hi {
                    for j in lo..i {
                        // told apart by a colour that the surface cannot give?
                        if s.colors.is_some() || fs.iter().all(|f| f.tex != *t || f.extra.is_empty()) {
                            check(!st[i].same(&st[j]), "corners that agree in everything are stored once");
                        }
                    }
                }
            }
            check(at == s.indices.len(), "no corner without a face");
            if tidy {
                check(used.iter().all(|u| *u) && base == st.len(), "no vertex without a corner");
            }
            check(s.colors.is_some() == colored, "colours if all faces of the surface have one");
            reach(if s.colors.is_some() { "colour" } else { "no colour" });
            if st.len() < s.indices.len() / 6 * 4 {
                reach("joined");
            }
        }
    }
}
fn turned(mut f: Face, k: usize) -> Face {
    match k {
        1 => f.rot = 180.0,
        2 => f.scale = [1.0, -1.0],
        3 => f.scale = [0.5, 1.0],
        _ => {}
    }
    f
}
/// a box with a face given twice with any mapping and any colour
fn twice(deep: bool) {
    let mut fs = cuboid([8.0, -16.0, 0.0], [24.0, 16.0, 8.0], "aa");
    let i = choose("face", if deep { 6 } else { 3 });
    let mut copy = turned(fs[i].clone(), choose("turned", 4));
    let fine = if deep { 3 } else { [3, 10][choose("fine", 2)] };
    copy.uv = Uv::Std(grid("u", -8192, 8192, fine), grid("v", -8192, 8192, fine));
    let col = choose("colours", 5);
    let c = |n: &str| [fl(&format!("{}r", n), 0.0, 255.0), fl(&format!("{}g", n), 0.0, 255.0), 4.0];
    if col == 2 || col == 4 {
        copy = copy.color(c("copy"));
    }
    if col == 3 || col == 4 {
        fs[i] = fs[i].clone().color(c("own"));
    }
    if col == 1 || col == 4 {
        for k in 0..6 {
            if fs[k].extra.is_empty() {
                fs[k] = fs[k].clone().color([1.0, 2.0, 3.0]);
            }
        }
    }
    if choose("other", 2) == 1 {
        fs[(i + 1) % 6].tex = "bb".into();
        fs[(i + 2) % 6].tex = "none".into();
    }
    let at = if flag("first") { 0 } else { i + 1 };
    fs.insert(at, copy);
    Job { brushes: vec![fs], phong: None, angle: None }.run();
}
pub fn h_c15_twice() {
    twice(false);
}
pub fn h_c15_twice_deep() {
    twice(true);
}
/// faces that agree in normal and tangent at their common corners
fn smooth(deep: bool) {
    let z = int("z", 64, -64, 64) as f32 / 8.0;
    let mut fs = cuboid([8.0, -2.0, z], [24.0, 2.0, z + 4.0], "aa");
    let u = grid("u", -256, 256, 3);
    let v = grid("v", -256, 256, 3);
    for k in [1, 2, 4, 5] {
        // +y +z -y -z
        if k == 2 {
            fs[k].uv = Uv::Std(u, v);
        }
        if k == 1 || k == 5 {
            fs[k].scale = [1.0, -1.0];
        }
    }
    if deep {
        fs[4].uv = Uv::Std(grid("u4", -256, 256, 3), 0.0);
        fs[1].uv = Uv::Std(0.0, grid("v1", -256, 256, 3));
    }
    let col = choose("colours", 3);
    if col > 0 {
        for k in 0..6 {
            let r = if k == 4 { fl("red", 0.0, 255.0) } else { 8.0 };
            if col == 1 || k != 4 {
                fs[k] = fs[k].clone().color([r, 4.0, 4.0]);
            }
        }
    }
    let phong = [Some("1"), Some("0"), None][choose("phong", 3)];
    let angle = [None, Some("95"), Some("60")][choose("angle", 3)];
    Job { brushes: vec![fs], phong, angle }.run();
}
pub fn h_c15_smooth() {
    smooth(false);
}
pub fn h_c15_smooth_deep() {
    smooth(true);
}
/// the same brush again, and others touching it
fn brushes(n: usize) {
    let phong = [Some("1"), None][choose("phong", 2)];
    let z = int("z", 64, -64, 64) as f32 / 8.0;
    let mut bs = Vec::new();
    for i in 0..n {
        let mut b = match if i == 0 { 0 } else { choose(&format!("brush{}", i), 4) } {
            0 => cuboid([8.0, -2.0, 0.0], [24.0, 2.0, 4.0], "aa"),
            1 => cuboid([8.0, -2.0, z], [24.0, 2.0, z + 4.0], "aa"),
            2 => cuboid([8.0, -2.0, 4.0], [24.0, 2.0, 8.0], "bb"),
            _ => shape(PYRAMID, [64, 0, 0], 8).faces(&["aa", "bb", "none"]),
        };
        if choose(&format!("colour{}", i), 2) == 1 {
            b = b.into_iter().map(|f| f.color([1.0, 2.0, 3.0])).collect();
        }
        bs.push(b);
    }
    Job { brushes: bs, phong, angle: None }.run();
}
pub fn h_c15_brushes() {
    brushes(2);
}
pub fn h_c15_brushes_deep() {
    brushes(3);
}
/// more brushes than a byte can number vertices of
pub fn h_c15_large() {
    let n = [13, 22][choose("brushes", 2)];
    let z = int("z", 64, -64, 64) as f32 / 8.0;
    let same = flag("same");
    let mut bs = Vec::new();
    for i in 0..n {
        let x = if same { 8.0 } else { 8.0 + 32.0 * i as f32 };
        let z = if i + 2 == n { z } else { 0.0 };
        bs.push(cuboid([x, -2.0, z], [x + 16.0, 2.0, z + 4.0], if i == 3 { "bb" } else { "aa" }));
    }
    Job { brushes: bs, phong: None, angle: None }.run();
}
/// corners close together, faces that differ little
pub fn h_c15_flat() {
    let kind = choose("kind", 6);
    let s = flat_shape(kind, if kind < 3 { 0 } else { choose("deep", 3) });
    let tex: &[&str] = [&["aa"][..], &["aa", "bb"]][choose("textures", 2)];
    let phong = [Some("1"), None][choose("phong", 2)];
    let angle = if phong.is_some() { [None, Some("89"), Some("0.5")][choose("angle", 3)] } else { None };
    let mut fs = s.faces(tex);
    fs.rotate_left([0, 3][choose("turn", 2)]);
    if flag("colour") {
        fs = fs.into_iter().enumerate().map(|(i, f)| f.color([1.0, 2.0, 3.0 + 0.001 * i as f32])).collect();
    }
    Job { brushes: vec![fs], phong, angle }.run();
}
/// any of the solids, shaded smoothly or not
pub fn h_c15_solids() {
    let k = choose("solid", 22);
    let s = shape(k, [80, -24, 8 * choose("z", 2) as i64], 64);
    let tex: &[&str] = [&["aa"][..], &["aa", "bb"], &["bb", "aa", "aa", "none"]][choose("textures", 3)];
    let phong = [Some("1"), None][choose("phong", 2)];
    let angle = if phong.is_some() { [None, Some("89"), Some("40")][choose("angle", 3)] } else { None };
    let mut fs = s.faces(tex);
    if flag("colour") {
        fs = fs.into_iter().map(|f| f.color([1.0, 2.0, 3.0])).collect();
    }
    let _ = BOX;
    Job { brushes: vec![fs], phong, angle }.run();
}
