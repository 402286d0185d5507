//! C08-C10: texture coordinates, normals and tangents.
use crate::geo::{corners, nominal, placed, plane, surface, Plane, FT};
use crate::mesh::{flat_shape, shape_of, Shape};
use crate::prelude::*;
use crate::scene::*;

type D = [f64; 3];
fn dotd(a: D, b: D) -> f64 {
    a[0] * b[0] + a[1] * b[1] + a[2] * b[2]
}
fn crossd(a: D, b: D) -> D {
    [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]
}
fn unit(a: D) -> D {
    let l = dotd(a, a).sqrt();
    [a[0] / l, a[1] / l, a[2] / l]
}
fn normal(p: &Plane) -> D {
    unit([p.n[0] as f64, p.n[1] as f64, p.n[2] as f64])
}
/// the axis a normal is closest to: z before y before x
fn dominant(p: &Plane) -> usize {
    let a = [p.n[0].abs(), p.n[1].abs(), p.n[2].abs()];
    if a[2] >= a[1] && a[2] >= a[0] {
        2
    } else if a[1] >= a[0] {
        1
    } else {
        0
    }
}
fn nearv(a: V, b: D, e: f32) -> bool {
    close(a, [b[0] as f32, b[1] as f32, b[2] as f32], e)
}
/// many orientations: ties, near ties, everything else
const SETS: usize = 8;
fn planes(k: usize, t: [i64; 3]) -> Vec<Plane> {
    let by = |ns: &[[i64; 3]], s: i64| -> Vec<Plane> {
        ns.iter().map(|n| plane(*n, [t[0] + n[0] * s, t[1] + n[1] * s, t[2] + n[2] * s])).collect()
    };
    let mut ns: Vec<[i64; 3]> = Vec::new();
    match k {
        0 => {
            // two components equal
            for i in 0..3 {
                for s in 0..4i64 {
                    let mut n = [0; 3];
                    n[i] = 1 - 2 * (s & 1);
                    n[(i + 1) % 3] = 1 - (s & 2);
                    ns.push(n);
                }
            }
            by(&ns, 64)
        }
        1 => {
            // nearly equal, in every order
            let p = [[10, 11, 12], [11, 10, 12], [10, 12, 11], [12, 10, 11], [12, 11, 10], [11, 12, 10], [10, 10, 11], [11, 11, 10]];
            for (b, p) in p.iter().enumerate() {
                let b = b as i64;
                ns.push([p[0] * (1 - 2 * (b & 1)), p[1] * (1 - (b & 2)), p[2] * (1 - (b & 4) / 2)]);
            }
            by(&ns, 8)
        }
        2 => {
            // two largest
            for b in 0..8i64 {
                let s = [1 - 2 * (b & 1), 1 - (b & 2), 1 - (b & 4) / 2];
                let p = [[3, 3, 1], [3, 1, 3], [1, 3, 3], [2, 2, 2]][(b % 4) as usize];
                ns.push([s[0] * p[0], s[1] * p[1], s[2] * p[2]]);
            }
            by(&ns, 24)
        }
        _ => {
            let (tri, inside) = nominal([1, 8, 13, 15, 16][k - 3]);
            placed(&tri, inside, t, 64)
        }
    }
}
fn form(k: usize, t: [i64; 3]) -> Shape {
    let still = planes(k, [0; 3]);
    let cs = corners(&still, 0.0);
    shape_of(&cs, planes(k, t), t)
}
const ROT: [f32; 12] = [0.0, 30.0, 45.0, 90.0, 135.0, 180.0, 270.0, 360.0, -90.0, -37.5, 12.25, 725.0];
const SCALE: [[f32; 2]; 8] = [[1.0, 1.0], [-1.0, 1.0], [1.0, -1.0], [0.25, 2.0], [-0.5, -3.7], [0.3, 0.01], [16.0, -0.125], [1.5, 100.0]];
const SIZE: [(u32, u32); 4] = [(64, 32), (16, 256), (48, 100), (1, 7)];
fn cfg(n: usize) -> Cfg {
    let mut c = Cfg::new().class("worldspawn", VisualType::Mesh, CollisionType::None);
    for i in 0..n {
        c = c.texture(FT[i], SIZE[i % 4].0, SIZE[i % 4].1);
    }
    c
}
fn spot() -> [i64; 3] {
    [int("x", 64, -8192, 8192), int("y", 64, -8192, 8192), int("z", 64, -8192, 8192)]
}
fn map_with(fs: &[Face], props: &[(&str, &str)]) -> Map {
    let mut m = Map::new();
    m.class("worldspawn");
    for p in props {
        m.prop(p.0, p.1);
    }
    m.brush(fs);
    m.close();
    m
}

// ---- C08

/// `x` is near y, given how large the parts of y are
fn within(x: f32, y: f64, mag: f64) -> bool {
    let d = x as f64 - y;
    let e = mag * 4.0e-6 + 1.0e-6;
    (d <= e) & (d >= -e)
}
/// the expected coordinates of point `p`, and the size of the parts
fn expected(pl: &Plane, f: &Face, size: (u32, u32), p: D) -> ([f64; 2], [f64; 2]) {
    let size = [size.0 as f64, size.1 as f64];
    let scale = [f.scale[0] as f64, f.scale[1] as f64];
    let range = 4096.0;
    match f.uv {
        Uv::Std(u, v) => {
            let (a, b) = match dominant(pl) {
                2 => (p[0], -p[1]),
                1 => (p[0], -p[2]),
                _ => (p[1], -p[2]),
            };
            let r = (f.rot as f64).to_radians();
            let (s, c) = (r.sin(), r.cos());
            let w = [a * c - b * s, a * s + b * c];
            let o = [u as f64, v as f64];
            let mut r = ([0.0; 2], [0.0; 2]);
            for i in 0..2 {
                r.0[i] = w[i] / size[i] / scale[i] + o[i] / size[i];
                r.1[i] = range / size[i] / scale[i].abs() + 2048.0 / size[i];
            }
            r
        }
        Uv::Valve(u, v) => {
            let mut r = ([0.0; 2], [0.0; 2]);
            for (i, a) in [u, v].iter().enumerate() {
                let x = dotd([a[0] as f64, a[1] as f64, a[2] as f64], p);
                r.0[i] = x / size[i] / scale[i] + a[3] as f64 / size[i];
                r.1[i] = 8.0 * range / size[i] / scale[i].abs() + 2048.0 / size[i];
            }
            r
        }
    }
}
fn check_uv(s: &Shape, fs: &[Face], node: &SceneTreeNode) {
    for i in 0..s.len() {
        let got = match surface(node, FT[i]) {
            Some(x) => x,
            None => {
                check(false, "a face of known texture has its surface");
                continue;
            }
        };
        let uv = match &got.uvs {
            Some(u) if u.len() == got.vertices.len() => u,
            _ => {
                check(false, "each vertex of a face of known texture has coordinates");
                continue;
            }
        };
        for (p, c) in got.vertices.iter().zip(uv.iter()) {
            let p = v3(*p);
            let (e, m) = expected(&s.planes[i], &fs[i], SIZE[i % 4], [p[0] as f64, p[1] as f64, p[2] as f64]);
            let c = v2(*c);
            check(within(c[0], e[0], m[0]), "the first coordinate follows the projection");
            check(within(c[1], e[1], m[1]), "the second coordinate follows the projection");
        }
    }
}
fn offsets(name: &str) -> [f32; 2] {
    [grid(&format!("{}u", name), -16384, 16384, 3), grid(&format!("{}v", name), -16384, 16384, 3)]
}
fn standard(rots: usize) {
    let k = choose("solid", SETS);
    let s = form(k, spot());
    let r = choose("rotation", rots);
    let o = offsets("o");
    let mut fs = Vec::new();
    for (i, p) in s.planes.iter().enumerate() {
        let mut f = p.face(FT[i]).uv(o[0], if i % 2 == 0 { o[1] } else { -o[1] });
        f.rot = ROT[(i + r) % 12];
        f.scale = SCALE[(i * 3 + r) % 8];
        fs.push(f);
    }
    if let Some(n) = scene(&map_with(&fs, &[]), cfg(fs.len())) {
        check_uv(&s, &fs, &n[0]);
        reach("end");
    }
}
/// every projection of standard coordinates
pub fn h_c08_standard() {
    standard(4);
}
pub fn h_c08_standard_deep() {
    standard(24);
}
const AX: [[[f32; 3]; 2]; 8] = [
    [[1.0, 0.0, 0.0], [0.0, -1.0, 0.0]],
    [[0.0, 1.0, 0.0], [0.0, 0.0, -1.0]],
    [[0.6, 0.8, 0.0], [0.8, -0.6, 0.0]],
    [[1.0, 2.0, -0.5], [0.25, 0.0, 3.0]],
    [[-1.0, 0.0, 0.0], [0.0, 0.0, 1.0]],
    [[0.57735, 0.57735, 0.57735], [-0.70711, 0.70711, 0.0]],
    [[0.0, 0.0, 0.5], [1.0, 1.0, 1.0]],
    [[1.0, 1.0, 0.0], [1.0, 1.0, 0.0]],
];
fn quad(a: [f32; 3], o: f32) -> [f32; 4] {
    [a[0], a[1], a[2], o]
}
fn bracketed(turns: usize) {
    let k = choose("solid", SETS);
    let s = form(k, spot());
    let r = choose("axes", turns);
    let o = offsets("o");
    let mut fs = Vec::new();
    for (i, p) in s.planes.iter().enumerate() {
        let mut f = p.face(FT[i]);
        let a = AX[(i + r) % 8];
        f.uv = Uv::Valve(quad(a[0], o[0]), quad(a[1], if i % 2 == 0 { o[1] } else { -o[1] }));
        // the rotation is already in the axes
        f.rot = ROT[(i * 5 + r) % 12];
        f.scale = SCALE[(i * 3 + r) % 8];
        fs.push(f);
    }
    if let Some(n) = scene(&map_with(&fs, &[]), cfg(fs.len())) {
        check_uv(&s, &fs, &n[0]);
        reach("end");
    }
}
/// every projection of bracketed axes
pub fn h_c08_bracketed() {
    bracketed(4);
}
pub fn h_c08_bracketed_deep() {
    bracketed(24);
}
/// arbitrary axes
pub fn h_c08_axes() {
    let k = choose("solid", SETS);
    let s = form(k, [80, -1203, 4801]);
    let g = |n: &str| grid(n, -64, 64, 4);
    let a = [[g("ux"), g("uy"), g("uz")], [g("vx"), g("vy"), g("vz")]];
    let o = offsets("o");
    let r = choose("scale", 2);
    let mut fs = Vec::new();
    for (i, p) in s.planes.iter().enumerate() {
        let mut f = p.face(FT[i]);
        f.uv = Uv::Valve(quad(a[i % 2], o[0]), quad(a[(i + 1) % 2], o[1]));
        f.scale = SCALE[(i * 3 + r) % 8];
        fs.push(f);
    }
    if let Some(n) = scene(&map_with(&fs, &[]), cfg(fs.len())) {
        check_uv(&s, &fs, &n[0]);
        reach("end");
    }
}
/// textures of any size
pub fn h_c08_size() {
    let k = choose("solid", 2) * 5;
    let s = form(k, [80, -1203, 4801]);
    let size = ([1u32, 2, 3, 17, 64, 100, 640, 4096], [1u32, 5, 64, 1000]);
    let size = (size.0[choose("width", 8)], size.1[choose("height", 4)]);
    let valve = flag("bracketed");
    let o = offsets("o");
    let mut c = Cfg::new().class("worldspawn", VisualType::Mesh, CollisionType::None);
    let mut fs = Vec::new();
    for (i, p) in s.planes.iter().enumerate() {
        let mut f = p.face(FT[i]);
        f.uv = if valve { Uv::Valve(quad(AX[i % 8][0], o[0]), quad(AX[i % 8][1], o[1])) } else { Uv::Std(o[0], o[1]) };
        f.rot = ROT[i % 12];
        f.scale = SCALE[i % 8];
        fs.push(f);
        c = c.texture(FT[i], size.0, size.1);
    }
    if let Some(n) = scene(&map_with(&fs, &[]), c) {
        for i in 0..s.len() {
            let got = match surface(&n[0], FT[i]) {
                Some(x) => x,
                None => continue,
            };
            let uv = match &got.uvs {
                Some(u) => u,
                None => {
                    check(false, "each vertex of a face of known texture has coordinates");
                    continue;
                }
            };
            for (p, c) in got.vertices.iter().zip(uv.iter()) {
                let p = v3(*p);
                let (e, m) = expected(&s.planes[i], &fs[i], size, [p[0] as f64, p[1] as f64, p[2] as f64]);
                let c = v2(*c);
                check(within(c[0], e[0], m[0]) & within(c[1], e[1], m[1]), "coordinates are divided by the size of the texture");
            }
        }
        reach("end");
    }
}
/// an arbitrary scale
pub fn h_c08_scale() {
    let s = form(4, [80, -1203, 4801]);
    let valve = flag("bracketed");
    let x = fl("scale", 0.001, 1000.0);
    let one = choose("component", 2);
    let a = if one == 0 { [x, 0.25] } else { [0.25, x] };
    let sign = [[1.0, 1.0], [-1.0, 1.0], [1.0, -1.0]][choose("sign", 3)];
    let scale = [a[0] * sign[0], a[1] * sign[1]];
    let at = choose("face", s.len());
    let mut fs = Vec::new();
    for (i, p) in s.planes.iter().enumerate() {
        let mut f = p.face(FT[i]).uv(3.0, -5.0);
        if valve {
            f.uv = Uv::Valve(quad(AX[i % 8][0], 3.0), quad(AX[i % 8][1], -5.0));
        }
        if i == at {
            f.scale = scale;
        }
        fs.push(f);
    }
    if let Some(n) = scene(&map_with(&fs, &[]), cfg(fs.len())) {
        {
            let i = at;
            let got = match surface(&n[0], FT[i]) {
                Some(x) => x,
                None => return check(false, "a face of known texture has its surface"),
            };
            let uv = match &got.uvs {
                Some(u) => u,
                None => return check(false, "each vertex of a face of known texture has coordinates"),
            };
            let mut one = fs[i].clone();
            one.scale = [1.0, 1.0];
            let size = [SIZE[i % 4].0 as f32, SIZE[i % 4].1 as f32];
            for (p, c) in got.vertices.iter().zip(uv.iter()).take(2) {
                let p = v3(*p);
                let (e, _) = expected(&s.planes[i], &one, SIZE[i % 4], [p[0] as f64, p[1] as f64, p[2] as f64]);
                let c = v2(*c);
                let off = [3.0f32, -5.0];
                for k in 0..2 {
                    // the projection alone, which is divided by the scale
                    let x = (e[k] - off[k] as f64 / size[k] as f64) as f32;
                    let want = x / scale[k] + off[k] / size[k];
                    let tol = (x.abs() / a[k] + 1.0) * 4.0e-6 + 1.0e-4 / a[k];
                    check(near(c[k], want, tol), "coordinates are divided by the scale");
                }
            }
        }
        reach("end");
    }
}
/// faces of unknown texture
pub fn h_c08_unknown() {
    let s = form(4, [80, -1203, 4801]);
    let o = offsets("o");
    let valve = flag("bracketed");
    let which = choose("known", 4);
    let mut fs = Vec::new();
    for (i, p) in s.planes.iter().enumerate() {
        let mut f = p.face(FT[i]);
        if valve {
            f.uv = Uv::Valve(quad(AX[i % 8][0], o[0]), quad(AX[i % 8][1], o[1]));
        } else {
            f = f.uv(o[0], o[1]);
        }
        fs.push(f);
    }
    let known = |i: usize| which & (1 << (i % 2)) != 0;
    let mut c = Cfg::new().class("worldspawn", VisualType::Mesh, CollisionType::None);
    for i in 0..fs.len() {
        if known(i) {
            c = c.texture(FT[i], 32, 32);
        }
    }
    if let Some(n) = scene(&map_with(&fs, &[]), c) {
        let mut n_unknown = 0;
        for x in surfaces(&n[0]) {
            check(x.texture.is_some() == x.uvs.is_some(), "coordinates if and only if there is a texture");
            n_unknown += x.texture.is_none() as usize;
        }
        for i in 0..fs.len() {
            check(surface(&n[0], FT[i]).is_some() == known(i), "a face of unknown texture has none");
        }
        check(n_unknown == (which != 3) as usize, "faces of unknown texture are there without texture");
        reach("end");
    }
}

// ---- C09

fn check_flat(s: &Shape, node: &SceneTreeNode) {
    for i in 0..s.len() {
        if let Some(x) = surface(node, FT[i]) {
            let n = normal(&s.planes[i]);
            check(x.normals.len() == x.vertices.len(), "each vertex has a normal");
            for m in &x.normals {
                check(nearv(v3(*m), n, 1.0e-5), "each vertex has the outward unit normal of its face");
            }
        } else {
            check(false, "a face of known texture has its surface");
        }
    }
}
/// normals of faces anywhere
pub fn h_c09_normals() {
    let k = choose("solid", SETS);
    let s = form(k, spot());
    let phong = choose("phong", 5);
    let mut props: Vec<(&str, &str)> = Vec::new();
    match phong {
        0 => {}
        1 => props.push(("_phong", "0")),
        2 => props.push(("_phong", "")),
        3 => props.push(("_phong_angle", "60")),
        _ => props.extend([("_phong", "2"), ("_phong_angle", "180")]),
    }
    let fs: Vec<Face> = s.planes.iter().enumerate().map(|(i, p)| p.face(FT[i])).collect();
    if let Some(n) = scene(&map_with(&fs, &props), cfg(fs.len())) {
        check_flat(&s, &n[0]);
        reach("end");
    }
}
/// three points of the face at any distance
pub fn h_c09_points() {
    let k = [3, 4, 1][choose("solid", 3)];
    let by = [1, 2, 7, 64, 700];
    let (a, b) = (by[choose("a", 5)], by[choose("b", 5)]);
    let mut s = form(k, [int("x", 64, -8192, 8192), 24, -40]);
    for p in s.planes.iter_mut() {
        p.e1 = [p.e1[0] * a, p.e1[1] * a, p.e1[2] * a];
        p.e2 = [p.e2[0] * b, p.e2[1] * b, p.e2[2] * b];
    }
    let fs: Vec<Face> = s.planes.iter().enumerate().map(|(i, p)| p.face(FT[i])).collect();
    if let Some(n) = scene(&map_with(&fs, &[]), cfg(fs.len())) {
        check_flat(&s, &n[0]);
        reach("end");
    }
}
fn turn(v: D, axis: D, deg: f64) -> D {
    let r = deg.to_radians();
    let (s, c) = (r.sin(), r.cos());
    let x = crossd(axis, v);
    let k = dotd(axis, v) * (1.0 - c);
    [v[0] * c + x[0] * s + axis[0] * k, v[1] * c + x[1] * s + axis[1] * k, v[2] * c + x[2] * s + axis[2] * k]
}
/// tangents of standard coordinates
fn standard_tangents(rots: usize) {
    let k = choose("solid", SETS);
    let s = form(k, [int("x", 64, -8192, 8192), 24, -40]);
    let r = choose("rotation", rots);
    let mut fs = Vec::new();
    for (i, p) in s.planes.iter().enumerate() {
        let mut f = p.face(FT[i]).uv(3.0, 4.0);
        f.rot = ROT[(i + r) % 12];
        f.scale = SCALE[(i * 3 + r) % 8];
        fs.push(f);
    }
    if let Some(n) = scene(&map_with(&fs, &[]), cfg(fs.len())) {
        for i in 0..s.len() {
            let x = match surface(&n[0], FT[i]) {
                Some(x) => x,
                None => continue,
            };
            let p = &s.planes[i];
            let (axis, side) = match dominant(p) {
                2 => ([1.0, 0.0, 0.0], p.n[2].signum()),
                1 => ([1.0, 0.0, 0.0], -p.n[1].signum()),
                _ => ([0.0, 1.0, 0.0], p.n[0].signum()),
            };
            let side = side as f64;
            let want = turn(axis, normal(p), -(fs[i].rot as f64) * side);
            let sign = side as f32 * if fs[i].scale[1] < 0.0 { -1.0 } else { 1.0 };
            check(x.tangents.len() == x.vertices.len(), "each vertex has a tangent");
            for t in &x.tangents {
                check(nearv(v3(t.0), want, 2.0e-5), "the tangent is the turned axis of the projection");
                check(t.1 == sign, "the tangent's sign is that of projection side and scale");
            }
        }
        reach("end");
    }
}
pub fn h_c09_standard() {
    standard_tangents(6);
}
pub fn h_c09_standard_deep() {
    standard_tangents(24);
}
fn bracket_check(s: &Shape, fs: &[Face], node: &SceneTreeNode) {
    for i in 0..s.len() {
        let x = match surface(node, FT[i]) {
            Some(x) => x,
            None => continue,
        };
        let (u, v) = match fs[i].uv {
            Uv::Valve(u, v) => (u, v),
            _ => continue,
        };
        let n = normal(&s.planes[i]);
        let c = crossd(n, [u[0] as f64, u[1] as f64, u[2] as f64]);
        let d = dotd(c, [v[0] as f64, v[1] as f64, v[2] as f64]);
        check(x.tangents.len() == x.vertices.len(), "each vertex has a tangent");
        for t in &x.tangents {
            let a = v3(t.0);
            check((a[0] == u[0]) & (a[1] == u[1]) & (a[2] == u[2]), "the tangent is the bracketed axis itself");
            let w = t.1;
            // degenerate axes have no side
            check(!(d > 1.0e-3) | (w == -1.0), "the sign makes the frame match the second axis");
            check(!(d < -1.0e-3) | (w == 1.0), "the sign makes the frame match the second axis");
        }
    }
}
pub fn h_c09_bracketed() {
    let k = choose("solid", SETS);
    let s = form(k, [int("x", 64, -8192, 8192), 24, -40]);
    let r = choose("axes", 8);
    let mut fs = Vec::new();
    for (i, p) in s.planes.iter().enumerate() {
        let mut f = p.face(FT[i]);
        let a = AX[(i + r) % 8];
        f.uv = Uv::Valve(quad(a[0], 5.0), quad(a[1], -3.0));
        f.rot = ROT[(i * 5 + r) % 12];
        f.scale = SCALE[(i * 3 + r) % 8];
        fs.push(f);
    }
    if let Some(n) = scene(&map_with(&fs, &[]), cfg(fs.len())) {
        bracket_check(&s, &fs, &n[0]);
        reach("end");
    }
}
/// one axis arbitrary, the other fixed
pub fn h_c09_axes() {
    let k = choose("solid", SETS);
    let s = form(k, [80, -1203, 4801]);
    let g = |n: &str| grid(n, -64, 64, 4);
    let a = [g("ax"), g("ay"), g("az")];
    let swap = flag("second");
    let b = AX[choose("other", 4) + 2][0];
    let mut fs = Vec::new();
    for (i, p) in s.planes.iter().enumerate() {
        let mut f = p.face(FT[i]);
        f.uv = if swap { Uv::Valve(quad(b, 1.0), quad(a, 2.0)) } else { Uv::Valve(quad(a, 1.0), quad(b, 2.0)) };
        fs.push(f);
    }
    // one face is enough, the others have the same form
    let j = choose("face", fs.len().min(6));
    for i in 0..fs.len() {
        if i != j {
            fs[i].uv = Uv::Std(0.0, 0.0);
        }
    }
    if let Some(n) = scene(&map_with(&fs, &[]), cfg(fs.len())) {
        bracket_check(&s, &fs, &n[0]);
        reach("end");
    }
}

// ---- C10

/// which of the face's neighbours take part: Some(limit in degrees) or all
fn check_smooth(s: &Shape, node: &SceneTreeNode, takes: &dyn Fn(f64) -> bool) {
    for i in 0..s.len() {
        let x = match surface(node, FT[i]) {
            Some(x) => x,
            None => {
                check(false, "a face of known texture has its surface");
                continue;
            }
        };
        check(x.normals.len() == x.vertices.len(), "each vertex has a normal");
        for (p, m) in x.vertices.iter().zip(x.normals.iter()) {
            let (p, m) = (v3(*p), v3(*m));
            let mut at = None;
            for c in &s.on[i] {
                if close(p, s.real[*c], 0.01) {
                    at = Some(*c);
                }
            }
            let c = match at {
                Some(c) => c,
                None => {
                    check(false, "a vertex is a corner of its face");
                    continue;
                }
            };
            check(near(m[0] * m[0] + m[1] * m[1] + m[2] * m[2], 1.0, 1.0e-5), "normals have unit length");
            if s.through[c].len() != 3 {
                continue;
            }
            let n = normal(&s.planes[i]);
            let mut sum = n;
            for j in &s.through[c] {
                if *j != i {
                    let o = normal(&s.planes[*j]);
                    let angle = dotd(n, o).max(-1.0).min(1.0).acos().to_degrees();
                    if takes(angle) {
                        sum = [sum[0] + o[0], sum[1] + o[1], sum[2] + o[2]];
                    }
                }
            }
            check(nearv(m, unit(sum), 2.0e-5), "a normal is the sum of those of the faces within the angle");
        }
    }
}
const SMOOTH: [usize; 7] = [1, 2, 3, 4, 6, 0, 7];
fn smooth_form(k: usize, t: [i64; 3]) -> Shape {
    form(SMOOTH[k], t)
}
fn flat_faces(s: &Shape) -> Vec<Face> {
    s.planes.iter().enumerate().map(|(i, p)| p.face(FT[i])).collect()
}
/// exactly "1" smooths; no angle, or an unreadable one, smooths everything
pub fn h_c10_phong() {
    hash_mode(1);
    let s = smooth_form(choose("solid", 7), [int("x", 64, -8192, 8192), 24, -40]);
    let text = ["1", "0", "", "01", "1.0", " 1", "1 ", "true", "yes", "11"][choose("phong", 10)];
    let mut props = vec![("_phong", text)];
    let a = choose("angle", 6);
    if a > 0 {
        props.push(("_phong_angle", ["", "x", "89 ", "8,5", "45 45"][a - 1]));
    }
    if flag("order") {
        props.reverse();
    }
    let fs = flat_faces(&s);
    if let Some(n) = scene(&map_with(&fs, &props), cfg(fs.len())) {
        if text == "1" {
            check_smooth(&s, &n[0], &|_| true);
            reach("smooth");
        } else {
            check_flat(&s, &n[0]);
            reach("flat");
        }
    }
}
/// the value letter by letter
pub fn h_c10_text() {
    hash_mode(1);
    let s = smooth_form(2, [80, -24, 40]);
    let t = crate::tree::letters("phong", 1 + choose("longer", 2));
    let mut m = Map::new();
    m.class("worldspawn");
    crate::tree::propb(&mut m, "_phong", &t);
    let fs = flat_faces(&s);
    m.brush(&fs);
    m.close();
    if let Some(n) = scene(&m, cfg(fs.len())) {
        if same(&t, b"1") {
            check_smooth(&s, &n[0], &|_| true);
            reach("smooth");
        } else {
            check_flat(&s, &n[0]);
            reach("flat");
        }
    }
}
/// any angle; those within the tolerance of one between two faces are left open
fn angles(lo: i64, hi: i64) {
    angles_of(smooth_form(choose("solid", 5), [80, -24, 40]), lo, hi);
}
fn angles_of(s: Shape, lo: i64, hi: i64) {
    let mut at: Vec<f64> = Vec::new();
    for i in 0..s.len() {
        for j in 0..i {
            let (n, o) = (normal(&s.planes[i]), normal(&s.planes[j]));
            let d = dotd(n, o).max(-1.0).min(1.0).acos().to_degrees();
            if !at.iter().any(|x| (x - d).abs() < 1.0e-6) {
                at.push(d);
            }
        }
    }
    at.sort_by(|a, b| a.partial_cmp(b).unwrap());
    // in units of 1/1024 of a degree, from one angle between faces to the next
    let unit = 1024.0;
    let (lo, hi) = (lo as f64 * unit, hi as f64 * unit);
    let (lo, hi) = (lo as i64 + (lo == 180.0 * unit) as i64, hi as i64 - (hi == 0.0) as i64);
    let mut from = lo;
    let mut zones = Vec::new();
    for d in &at {
        let end = ((d - 0.02) * unit).floor() as i64;
        if from <= end.min(hi) {
            zones.push((from, end.min(hi)));
        }
        from = from.max(((d - 0.001) * unit).ceil() as i64);
    }
    if from <= hi {
        zones.push((from, hi));
    }
    let z = zones[choose("zone", zones.len())];
    let a = grid("angle", z.0, z.1, 10);
    let t = ft(a);
    let fs = flat_faces(&s);
    let mut props = vec![("_phong", "1"), ("_phong_angle", t.as_str())];
    if flag("order") {
        props.reverse();
    }
    if let Some(n) = scene(&map_with(&fs, &props), cfg(fs.len())) {
        check_smooth(&s, &n[0], &|d| a as f64 >= d - 0.01);
        reach("end");
    }
}
pub fn h_c10_angle() {
    angles(0, 180);
}
/// faces that meet at a few degrees
pub fn h_c10_flat() {
    angles_of(flat_shape(choose("kind", 3), 0), 0, 16);
}
pub fn h_c10_angle_wide() {
    angles(-720, 0);
}
pub fn h_c10_angle_high() {
    angles(180, 3600);
}
/// angles as delicate texts
pub fn h_c10_angle_text() {
    let s = smooth_form(choose("solid", 7), [80, -24, 40]);
    let k = choose("angle", 12);
    let t = ["90", "90.0", "9e1", "+90", "89.9", "0", "-1", "180", "360", "inf", "1e3", "-0.0"][k];
    let a: f64 = [90.0, 90.0, 90.0, 90.0, 89.9, 0.0, -1.0, 180.0, 360.0, 1.0e9, 1000.0, 0.0][k];
    let fs = flat_faces(&s);
    if let Some(n) = scene(&map_with(&fs, &[("_phong", "1"), ("_phong_angle", t)]), cfg(fs.len())) {
        check_smooth(&s, &n[0], &|d| a >= d - 0.01);
        reach("end");
    }
}
/// only the entity's own values count
pub fn h_c10_entities() {
    let s = [smooth_form(2, [80, -24, 40]), smooth_form(3, [8000, -24, 40])];
    let v: Vec<[bool; 2]> = (0..2).map(|i| [flag(["p0", "p1"][i]), flag(["a0", "a1"][i])]).collect();
    let mut m = Map::new();
    for i in 0..2 {
        m.class(["worldspawn", "func_wall"][i]);
        if v[i][1] {
            m.prop("_phong_angle", "60");
        }
        if v[i][0] {
            m.prop("_phong", "1");
        }
        m.brush(&flat_faces(&s[i]));
        m.close();
    }
    let c = cfg(14).class("func_wall", VisualType::Mesh, CollisionType::None);
    if let Some(n) = scene(&m, c) {
        check(n.len() == 2, "both entities are there");
        for i in 0..n.len().min(2) {
            if v[i][0] {
                check_smooth(&s[i], &n[i], &|d| !v[i][1] || 60.0 >= d - 0.01);
                reach("smooth");
            } else {
                check_flat(&s[i], &n[i]);
                reach("flat");
            }
        }
    }
}
