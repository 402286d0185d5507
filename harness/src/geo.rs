//! C05-C07: corners, winding, centres.
use crate::prelude::*;
use crate::scene::*;

pub const FT: [&str; 34] = ["f0", "f1", "f2", "f3", "f4", "f5", "f6", "f7", "f8", "f9", "fa", "fb", "fc", "fd", "fe", "ff", "fg", "fh", "fi", "fj", "fk", "fl", "fm", "fn", "fo", "fp", "fq", "fr", "fs", "ft", "fu", "fv", "fw", "fx"];
/// how near a vertex is to the corner it stands for
const NEAR: f32 = 0.01;
/// unless told otherwise the smallest distance of a corner from a plane it is not on
const GAP: f64 = 0.03;

type I3 = [i64; 3];
fn cross(a: I3, b: I3) -> I3 {
    [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]
}
fn dot(a: I3, b: I3) -> i64 {
    a[0] * b[0] + a[1] * b[1] + a[2] * b[2]
}
fn add(a: I3, b: I3, k: i64) -> I3 {
    [a[0] + k * b[0], a[1] + k * b[1], a[2] + k * b[2]]
}
fn gcd(a: i64, b: i64) -> i64 {
    if b == 0 {
        a
    } else {
        gcd(b, a % b)
    }
}
fn norm(n: I3) -> f64 {
    (dot(n, n) as f64).sqrt()
}

/// a plane with the outward normal `n` through `p` (in eighths, or `u`-ths)
#[derive(Clone)]
pub struct Plane {
    pub n: I3,
    pub p: I3,
    pub e1: I3,
    pub e2: I3,
    pub d: i64,
    /// units of `p` in one
    pub u: i64,
}
/// the same with two vectors in the plane
pub fn plane_by(e1: I3, e2: I3, p: I3) -> Plane {
    let n = cross(e2, e1);
    let g = gcd(gcd(n[0].abs(), n[1].abs()), n[2].abs());
    let n = [n[0] / g, n[1] / g, n[2] / g];
    Plane { n, p, e1, e2, d: dot(n, p), u: 8 }
}
pub fn plane(n: I3, p: I3) -> Plane {
    let (a, b, c) = (n[0], n[1], n[2]);
    let cand = [[b, -a, 0], [0, c, -b], [c, 0, -a], [0, 1, 0], [1, 0, 0], [0, 0, 1]];
    let mut r = Plane { n, p, e1: [0; 3], e2: [0; 3], d: dot(n, p), u: 8 };
    for i in 0..6 {
        for j in 0..6 {
            let (x, y) = (cand[i], cand[j]);
            // (v2-v0) x (v1-v0) points outwards
            if r.e1 == [0; 3] && dot(x, n) == 0 && dot(y, n) == 0 && dot(cross(y, x), n) > 0 {
                r.e1 = x;
                r.e2 = y;
            }
        }
    }
    r
}
impl Plane {
    pub fn face(&self, tex: &str) -> Face {
        let u = self.u as f32;
        let f = |v: I3| -> V { [v[0] as f32 / u, v[1] as f32 / u, v[2] as f32 / u] };
        Face::new([f(self.p), f(add(self.p, self.e1, self.u)), f(add(self.p, self.e2, self.u))], tex)
    }
    pub fn unit(&self) -> V {
        let l = norm(self.n);
        [(self.n[0] as f64 / l) as f32, (self.n[1] as f64 / l) as f32, (self.n[2] as f64 / l) as f32]
    }
}
pub fn faces(pl: &[Plane]) -> Vec<Face> {
    pl.iter().enumerate().map(|(i, p)| p.face(FT[i])).collect()
}

/// a corner of the solid: position num/det (in eighths) and its planes
#[derive(Clone)]
pub struct Corner {
    pub num: I3,
    pub det: i64,
    pub on: Vec<usize>,
    pub at: V,
}
/// the corners of the intersection of half spaces, by definition: every point
/// where three planes meet that is on the inner side of all planes
pub fn corners(pl: &[Plane], apart: f64) -> Vec<Corner> {
    let mut out: Vec<Corner> = Vec::new();
    for i in 0..pl.len() {
        for j in i + 1..pl.len() {
            for k in j + 1..pl.len() {
                let (a, b, c) = (&pl[i], &pl[j], &pl[k]);
                let (bc, ca, ab) = (cross(b.n, c.n), cross(c.n, a.n), cross(a.n, b.n));
                let mut det = dot(a.n, bc);
                if det == 0 {
                    continue;
                }
                if out.iter().any(|q| q.on.contains(&i) && q.on.contains(&j) && q.on.contains(&k)) {
                    continue;
                }
                let mut num = [0i64; 3];
                for x in 0..3 {
                    num[x] = a.d * bc[x] + b.d * ca[x] + c.d * ab[x];
                }
                if det < 0 {
                    det = -det;
                    num = [-num[0], -num[1], -num[2]];
                }
                let mut on = Vec::new();
                let mut inside = true;
                for m in 0..pl.len() {
                    if m == i || m == j || m == k {
                        on.push(m);
                        continue;
                    }
                    let gap = dot(pl[m].n, num) - pl[m].d * det;
                    let least = (apart * pl[m].u as f64 * det as f64 * norm(pl[m].n)) as i64 + 1;
                    if gap > 0 {
                        assume(gap >= least);
                        inside = false;
                        break;
                    }
                    if gap == 0 {
                        on.push(m);
                    } else {
                        assume(gap <= -least);
                    }
                }
                if inside {
                    let s = (det * a.u) as f64;
                    let at = [(num[0] as f64 / s) as f32, (num[1] as f64 / s) as f32, (num[2] as f64 / s) as f32];
                    out.push(Corner { num, det, on, at });
                }
            }
        }
    }
    out
}

/// all face textures known
pub fn cfg(n: usize, col: CollisionType) -> Cfg {
    let mut c = Cfg::new().class("worldspawn", VisualType::Mesh, col);
    for t in &FT[..n] {
        c = c.texture(t, 64, 32);
    }
    c
}
pub fn brush_map(faces: &[Face]) -> Map {
    let mut m = Map::new();
    m.class("worldspawn");
    m.brush(faces);
    m.close();
    m
}
pub fn surface<'a>(n: &'a SceneTreeNode, tex: &str) -> Option<&'a MeshSurface> {
    surfaces(n).iter().find(|s| s.texture.as_deref() == Some(tex))
}
/// the index among `want` of each vertex
fn matched(got: &[V], want: &[&Corner], near: f32) -> Option<Vec<usize>> {
    let mut r = Vec::new();
    for g in got {
        let mut f = None;
        for (i, w) in want.iter().enumerate() {
            if close(*g, w.at, near) {
                f = Some(i);
            }
        }
        r.push(f?);
    }
    Some(r)
}

/// C05: each face has exactly its corners
fn check_corners(pl: &[Plane], node: &SceneTreeNode, cs: &[Corner]) {
    for i in 0..pl.len() {
        let want: Vec<&Corner> = cs.iter().filter(|c| c.on.contains(&i)).collect();
        match surface(node, FT[i]) {
            Some(s) => {
                // touching the solid in an edge or a corner makes no face
                check(want.len() >= 3 || s.indices.is_empty(), "a plane that does not bound the solid has no triangle");
                check(want.len() > 0, "a plane beyond the solid has no vertex");
                let got: Vec<V> = s.vertices.iter().map(|v| v3(*v)).collect();
                match matched(&got, &want, if pl[i].u > 8 { 0.003 } else { NEAR }) {
                    Some(m) => {
                        for k in 0..want.len() {
                            check(m.contains(&k), "every corner of the brush on the face is a vertex of it");
                        }
                        check(m.len() <= want.len(), "no vertex occurs twice");
                    }
                    None => check(false, "every vertex of a face is a corner of the brush on it"),
                }
            }
            None => check(want.len() < 3, "a plane that bounds the solid has a face"),
        }
    }
}
/// C06: the outline is followed clockwise and triangulated exactly
fn check_winding(pl: &[Plane], node: &SceneTreeNode, cs: &[Corner]) {
    for i in 0..pl.len() {
        let want: Vec<&Corner> = cs.iter().filter(|c| c.on.contains(&i)).collect();
        if want.len() < 3 {
            continue;
        }
        let s = match surface(node, FT[i]) {
            Some(s) => s,
            None => {
                check(false, "a face with three corners is triangulated");
                continue;
            }
        };
        let got: Vec<V> = s.vertices.iter().map(|v| v3(*v)).collect();
        let m = match matched(&got, &want, if pl[i].u > 8 { 0.003 } else { NEAR }) {
            Some(m) => m,
            None => {
                check(false, "the vertices are the corners");
                continue;
            }
        };
        let n = m.len();
        for x in 0..n {
            let (a, b) = (want[m[x]], want[m[(x + 1) % n]]);
            let mut edge = false;
            let mut along = true;
            for j in 0..pl.len() {
                if j != i && a.on.contains(&j) && b.on.contains(&j) {
                    let dir = cross(pl[j].n, pl[i].n);
                    if dir != [0; 3] {
                        edge = true;
                        along &= dot(b.num, dir) * a.det > dot(a.num, dir) * b.det;
                    }
                }
            }
            check(edge, "consecutive vertices are the ends of an edge");
            check(along, "the outline is followed clockwise");
        }
        check_fan(&s.indices, n);
    }
}
/// n-2 triangles over the outline 0..n that cover it once, all going round
/// like the outline
fn check_fan(ix: &[usize], n: usize) {
    check(ix.len() == 3 * (n - 2), "n corners make n-2 triangles");
    check(ix.iter().all(|i| *i < n), "every index refers to a vertex");
    let mut e: Vec<(usize, usize)> = Vec::new();
    for t in ix.chunks(3) {
        if t.len() == 3 {
            let (a, b, c) = (t[0], t[1], t[2]);
            check((a < b && b < c) || (b < c && c < a) || (c < a && a < b), "each triangle goes round like the outline");
            e.push((a, b));
            e.push((b, c));
            e.push((c, a));
        }
    }
    for i in 0..n {
        let o = (i, (i + 1) % n);
        check(e.iter().filter(|x| **x == o).count() == 1, "each edge of the outline belongs to one triangle");
    }
    for x in &e {
        let outline = x.1 == (x.0 + 1) % n;
        check(outline || e.iter().filter(|y| y.0 == x.1 && y.1 == x.0).count() == 1, "inner edges join two triangles");
    }
}
/// C07: mean of the means
fn mean(v: &[V]) -> V {
    let mut r = [0f64; 3];
    for x in v {
        for i in 0..3 {
            r[i] += x[i] as f64;
        }
    }
    let n = v.len().max(1) as f64;
    [(r[0] / n) as f32, (r[1] / n) as f32, (r[2] / n) as f32]
}
fn brush_centre(pl: &[Plane], cs: &[Corner]) -> V {
    let mut f = Vec::new();
    for i in 0..pl.len() {
        let v: Vec<V> = cs.iter().filter(|c| c.on.contains(&i)).map(|c| c.at).collect();
        if !v.is_empty() {
            f.push(mean(&v));
        }
    }
    mean(&f)
}

fn run5(pl: &[Plane], apart: f64) {
    let cs = corners(pl, apart);
    if let Some(s) = scene(&brush_map(&faces(pl)), cfg(pl.len(), CollisionType::None)) {
        check_corners(pl, &s[0], &cs);
        if cs.len() > 3 {
            reach("solid");
        }
    }
}
fn run6(pl: &[Plane], apart: f64) {
    let cs = corners(pl, apart);
    if let Some(s) = scene(&brush_map(&faces(pl)), cfg(pl.len(), CollisionType::None)) {
        check_winding(pl, &s[0], &cs);
        if cs.len() > 3 {
            reach("solid");
        }
    }
}

fn at(name: &str, far: i64) -> I3 {
    let g = |c: &str| int(&format!("{}{}", name, c), 64, -far * 8, far * 8);
    [g("x"), g("y"), g("z")]
}
fn size(name: &str, hi: i64) -> i64 {
    int(name, 64, 8, hi * 8)
}

const FRAMES: [[I3; 3]; 8] = [
    [[1, 0, 0], [0, 1, 0], [0, 0, 1]],
    [[1, 1, 0], [-1, 1, 0], [0, 0, 1]],
    [[3, 4, 0], [-4, 3, 0], [0, 0, 1]],
    [[2, 1, 2], [-2, 2, 1], [-1, -2, 2]],
    [[1, 0, 2], [0, 1, 0], [-2, 0, 1]],
    [[1, 1, 1], [-1, 1, 0], [-1, -1, 2]],
    [[6, 2, 3], [-3, 6, 2], [-2, -3, 6]],
    [[1, 0, 0], [0, 5, 12], [0, -12, 5]],
];

/// a turned box
fn boxes() -> Vec<Plane> {
    let f = FRAMES[choose("frame", 8)];
    let t = at("t", 3584);
    let mut v = Vec::new();
    for i in 0..3 {
        v.push(plane_by(f[(i + 2) % 3], f[(i + 1) % 3], add(t, f[i], size(["w", "d", "h"][i], (512.0 / norm(f[i])) as i64))));
    }
    for i in 0..3 {
        v.push(plane_by(f[(i + 1) % 3], f[(i + 2) % 3], t));
    }
    order(v)
}
/// the planes in some other order
fn order(mut v: Vec<Plane>) -> Vec<Plane> {
    match choose("order", 3) {
        1 => v.reverse(),
        2 => {
            let n = v.len();
            v.rotate_left(2.min(n))
        }
        _ => {}
    }
    v
}
type Tri = [I3; 3];
/// solids by three points of each face and a point inside (in quarters)
pub fn nominal(k: usize) -> (Vec<Tri>, I3) {
    // base polygon, apex
    let pyramid = |base: &[I3], apex: I3| -> Vec<Tri> {
        let n = base.len();
        let mut r = vec![[base[0], base[1], base[2]]];
        for i in 0..n {
            r.push([base[i], base[(i + 1) % n], apex]);
        }
        r
    };
    let prism = |base: &[I3], up: I3| -> Vec<Tri> {
        let n = base.len();
        let mut r = vec![[base[0], base[1], base[2]], [add(base[0], up, 1), add(base[1], up, 1), add(base[2], up, 1)]];
        for i in 0..n {
            r.push([base[i], base[(i + 1) % n], add(base[i], up, 1)]);
        }
        r
    };
    const HEX: [I3; 6] = [[4, 0, 0], [2, 3, 0], [-2, 3, 0], [-4, 0, 0], [-2, -3, 0], [2, -3, 0]];
    const OCT: [I3; 8] = [[5, 2, 0], [2, 5, 0], [-2, 5, 0], [-5, 2, 0], [-5, -2, 0], [-2, -5, 0], [2, -5, 0], [5, -2, 0]];
    const SQ: [I3; 4] = [[0, 0, 0], [5, 0, 0], [5, 4, 0], [0, 4, 0]];
    const PENT: [I3; 5] = [[0, 5, 0], [5, 2, 0], [3, -4, 0], [-3, -4, 0], [-5, 2, 0]];
    match k {
        // tetrahedra
        0 => (pyramid(&[[0, 0, 0], [4, 0, 0], [0, 4, 0]], [0, 0, 4]), [4, 4, 4]),
        1 => (pyramid(&[[0, 0, 0], [5, 1, 0], [1, 4, 1]], [2, 1, 6]), [8, 6, 7]),
        // pyramids: upright, leaning, with many sides
        2 => (pyramid(&SQ, [2, 2, 4]), [9, 8, 4]),
        3 => (pyramid(&SQ, [1, 3, 5]), [8, 8, 4]),
        4 => (pyramid(&HEX, [0, 0, 5]), [0, 0, 4]),
        5 => (pyramid(&HEX, [1, -1, -6]), [0, 0, -4]),
        6 => (pyramid(&OCT, [1, 0, 4]), [0, 0, 4]),
        7 => (pyramid(&PENT, [0, 0, 6]), [0, 0, 4]),
        // prisms: ramp, upright and leaning
        8 => (prism(&[[0, 0, 0], [6, 0, 0], [6, 0, 3]], [0, 4, 0]), [18, 8, 4]),
        9 => (prism(&HEX, [0, 0, 3]), [0, 0, 4]),
        10 => (prism(&OCT, [0, 0, 4]), [0, 0, 4]),
        11 => (prism(&PENT, [2, 1, 4]), [4, 2, 8]),
        12 => (prism(&[[0, 0, 0], [0, 5, 1], [0, 2, 5]], [7, 1, 1]), [12, 10, 8]),
        // a double pyramid: four planes in every corner
        13 => {
            let mut r = Vec::new();
            for b in 0..8i64 {
                let (x, y, z) = (1 - 2 * (b & 1), 1 - (b & 2), 1 - (b & 4) / 2);
                r.push([[3 * x, 0, 0], [0, 4 * y, 0], [0, 0, 5 * z]]);
            }
            (r, [0, 0, 0])
        }
        // a frustum
        14 => (
            vec![
                [[0, 0, 0], [6, 0, 0], [6, 6, 0]],
                [[1, 1, 4], [5, 1, 4], [5, 5, 4]],
                [[0, 0, 0], [6, 0, 0], [1, 1, 4]],
                [[6, 0, 0], [6, 6, 0], [5, 1, 4]],
                [[6, 6, 0], [0, 6, 0], [5, 5, 4]],
                [[0, 6, 0], [0, 0, 0], [1, 5, 4]],
            ],
            [12, 12, 8],
        ),
        // twelve five-sided faces
        15 => {
            let mut r = Vec::new();
            for b in 0..4i64 {
                let (x, y) = (1 - 2 * (b & 1), 1 - (b & 2));
                // faces x + 2y = 10 and its turns: points on each plane
                r.push([[0, 5 * y, 0], [2 * x, 4 * y, 0], [0, 5 * y, 2]]);
                r.push([[0, 0, 5 * y], [0, 2 * x, 4 * y], [2, 0, 5 * y]]);
                r.push([[5 * y, 0, 0], [4 * y, 0, 2 * x], [5 * y, 2, 0]]);
            }
            (r, [0, 0, 0])
        }
        // cube with all corners cut to the middle of the edges: four planes in
        // every corner, fourteen faces
        16 => {
            let mut r = Vec::new();
            for a in 0..3 {
                for s in [-4, 4] {
                    let mut p = [[0; 3]; 3];
                    for q in p.iter_mut() {
                        q[a] = s;
                    }
                    p[1][(a + 1) % 3] = 4;
                    p[2][(a + 2) % 3] = 4;
                    r.push(p);
                }
            }
            for b in 0..8i64 {
                let (x, y, z) = (4 - 8 * (b & 1), 4 - 4 * (b & 2), 4 - 2 * (b & 4));
                r.push([[x, y, 0], [0, y, z], [x, 0, z]]);
            }
            (r, [0, 0, 0])
        }
        // prisms of twelve and sixteen sides
        24 | 25 => {
            let mut e: Vec<I3> = vec![[1, 0, 0], [2, 1, 0], [1, 1, 0], [1, 2, 0], [0, 1, 0], [-1, 2, 0], [-1, 1, 0], [-2, 1, 0]];
            if k == 24 {
                e = vec![[1, 0, 0], [2, 1, 0], [1, 2, 0], [0, 1, 0], [-1, 2, 0], [-2, 1, 0]];
            }
            let n = e.len();
            for i in 0..n {
                e.push([-e[i][0], -e[i][1], 0]);
            }
            let mut base = vec![[0; 3]];
            for v in &e[1..] {
                base.push(add(base[base.len() - 1], *v, 1));
            }
            (prism(&base, [0, 0, 4]), [-2, if k == 24 { 14 } else { 18 }, 8])
        }
        // a prism of 32 sides
        26 => {
            let h = [[1, 0], [3, 1], [2, 1], [3, 2], [1, 1], [2, 3], [1, 2], [1, 3], [0, 1], [-1, 3], [-1, 2], [-2, 3], [-1, 1], [-3, 2], [-2, 1], [-3, 1]];
            let mut base = vec![[0; 3]];
            for i in 1..32 {
                let g = if i < 16 { 1 } else { -1 };
                base.push(add(base[i - 1], [h[i % 16][0], h[i % 16][1], 0], g));
            }
            (prism(&base, [0, 0, 8]), [-2, 54, 16])
        }
        // a box with further planes: the same plane again, one through an edge,
        // one through a corner only, one beyond the box
        _ => {
            let mut r = prism(&SQ, [0, 0, 3]);
            match k {
                17 => r.push([[1, 1, 3], [3, 1, 3], [2, 3, 3]]),
                18 => r.push([[5, 4, 0], [5, 4, 3], [6, 3, 1]]),
                19 => r.push([[5, 4, 3], [6, 4, 2], [5, 5, 2]]),
                20 => r.push([[7, 7, 0], [7, 7, 1], [6, 8, 3]]),
                21 => r.push([[0, 0, 5], [0, 5, 5], [5, 0, 6]]),
                // nothing is left
                22 => r.push([[-1, -1, -1], [-1, 2, -1], [2, 0, -1]]),
                _ => {}
            }
            let mut inside = [10, 8, 6];
            if k == 22 {
                inside = [10, 8, -12];
            }
            (r, inside)
        }
    }
}
pub const SOLIDS: usize = 26;
/// planes of a nominal solid, moved by `t` and scaled by `s` eighths
pub fn placed(tri: &[Tri], inside: I3, t: I3, s: i64) -> Vec<Plane> {
    let mut v = Vec::new();
    for [a, b, c] in tri.iter().copied() {
        // directions that no corner of the face lies on, seen from its centre
        let (f1, f2) = (add(b, a, -1), add(c, a, -1));
        let (e1, e2) = (add(add(f1, f1, 2), f2, 1), add(add(f2, f2, 2), f1, 1));
        let p = add(t, a, s);
        let n = cross(e2, e1);
        let out = dot(n, [4 * a[0] - inside[0], 4 * a[1] - inside[1], 4 * a[2] - inside[2]]) > 0;
        v.push(if out { plane_by(e1, e2, p) } else { plane_by(e2, e1, p) });
    }
    v
}
fn solids(lo: usize, hi: usize) -> Vec<Plane> {
    let (tri, inside) = nominal(lo + choose("solid", hi - lo));
    let v = placed(&tri, inside, at("t", 1664), int("s", 64, 8, 8 * 64));
    order(v)
}
/// one face moved in or out by some quarters of the way to the middle
fn moved(list: &[usize], by: &[i64]) -> Vec<Plane> {
    let (tri, inside) = nominal(list[choose("solid", list.len())]);
    let t = at("t", 1664);
    let s = int("s", 64, 1, 16);
    let wide: Vec<Tri> = tri.iter().map(|v| [add([0; 3], v[0], 16), add([0; 3], v[1], 16), add([0; 3], v[2], 16)]).collect();
    let mut v = placed(&wide, [16 * inside[0], 16 * inside[1], 16 * inside[2]], t, s);
    let i = choose("which", v.len());
    let j = by[choose("by", by.len())];
    let a = tri[i][0];
    v[i].p = add(t, add(add([0; 3], a, 16 - 4 * j), inside, j), s);
    v[i].d = dot(v[i].n, v[i].p);
    v
}
/// a box cut by a plane
const CUTS: [I3; 8] = [[1, 1, 0], [2, 0, -1], [1, 1, 1], [1, 2, -2], [-3, 1, 2], [-1, -1, 4], [1, -2, 5], [0, 3, 1]];
fn cut() -> Vec<Plane> {
    let t = at("t", 1664);
    let s = int("s", 64, 8, 8 * 16);
    let f = FRAMES[0];
    let dim = [[4, 4, 4], [6, 2, 3], [1, 5, 2]][choose("dim", 3)];
    let mut v = Vec::new();
    for i in 0..3 {
        v.push(plane_by(f[(i + 2) % 3], f[(i + 1) % 3], add(t, f[i], s * dim[i])));
    }
    for i in 0..3 {
        v.push(plane_by(f[(i + 1) % 3], f[(i + 2) % 3], t));
    }
    let n = CUTS[choose("cut", CUTS.len())];
    v.push(plane(n, add(t, [n[0].signum(), n[1].signum(), n[2].signum()], s * (choose("c", 9) as i64 - 2))));
    v
}
/// roofs with little slope, and boxes with a corner or an edge cut off by a
/// hair
fn flat() -> (Vec<Plane>, f64) {
    let kind = choose("kind", 6);
    let deep = if kind < 3 { 0 } else { choose("deep", 3) };
    let (v, gap) = flat_at(at("t", 64), kind, deep);
    (order(v), gap)
}
pub fn flat_at(t: I3, kind: usize, deep: usize) -> (Vec<Plane>, f64) {
    let b = |lo: I3, hi: I3| -> Vec<Plane> {
        let mut v = Vec::new();
        for (i, s) in [(0, 1), (1, 1), (2, 1), (0, -1), (1, -1), (2, -1)] {
            let mut n = [0; 3];
            n[i] = s;
            v.push(plane(n, if s > 0 { hi } else { lo }));
        }
        v
    };
    if kind < 3 {
        let k = [30, 62, 125][kind];
        let w = [64, 128, 256][kind] * 8;
        let mut v = b(add(t, [-w, -w, 0], 1), add(t, [w, w, 0], 1));
        v.remove(2);
        let top = add(t, [0, 0, 1], 64 * 8);
        v.push(plane([1, 0, k], top));
        v.push(plane([-1, 0, k], top));
        return (v, GAP);
    }
    let lo = add([0; 3], t, 16);
    let hi = add(lo, [16, 8, 12], 128);
    let mut v = b(lo, hi);
    let deep = [1, 2, 6][deep];
    let n = [[1, 1, 1], [1, 1, 0], [2, 0, 1]][kind - 3];
    v.push(plane(n, add(hi, [1, 0, 0], -deep)));
    for p in v.iter_mut() {
        p.u = 128;
    }
    (v, 0.002)
}
pub fn h_c05_flat() {
    let (pl, gap) = flat();
    run5(&pl, gap);
}
pub fn h_c06_flat() {
    let (pl, gap) = flat();
    run6(&pl, gap);
}
pub fn h_c07_flat() {
    let (pl, gap) = flat();
    run7(&pl, gap);
}
pub fn h_c05_boxes() {
    run5(&boxes(), GAP);
}
pub fn h_c06_boxes() {
    run6(&boxes(), GAP);
}
pub fn h_c05_solids() {
    run5(&solids(0, SOLIDS), GAP);
}
pub fn h_c06_solids() {
    run6(&solids(0, SOLIDS), GAP);
}
/// a solid of 34 faces
pub fn h_c05_large() {
    let (tri, inside) = nominal(26);
    run5(&order(placed(&tri, inside, at("t", 1664), int("s", 64, 8, 8 * 8))), GAP);
}
pub fn h_c06_outline() {
    let (tri, inside) = nominal(26);
    run6(&order(placed(&tri, inside, at("t", 1664), int("s", 64, 8, 8 * 8))), GAP);
}
pub fn h_c05_moved() {
    run5(&moved(&[0, 2, 8, 13, 17], &[2, -1]), GAP);
}
pub fn h_c06_moved() {
    run6(&moved(&[0, 2, 8, 13, 17], &[2, -1]), GAP);
}
pub fn h_c05_cut() {
    run5(&cut(), GAP);
}
pub fn h_c06_cut() {
    run6(&cut(), GAP);
}

/// C07: brush centre, as the place of the actor and of the collision shape
fn run7(pl: &[Plane], apart: f64) {
    let cs = corners(pl, apart);
    if let Some(s) = scene(&brush_map(&faces(pl)), cfg(pl.len(), CollisionType::None)) {
        let want = brush_centre(pl, &cs);
        check(close(v3(s[0].origin), want, 0.02), "the centre is the mean of the face centres");
        if cs.len() > 3 {
            reach("solid");
        } else {
            reach("nothing");
        }
    }
}
pub fn h_c07_boxes() {
    run7(&boxes(), GAP);
}
pub fn h_c07_solids() {
    run7(&solids(0, SOLIDS), GAP);
}
pub fn h_c07_moved() {
    run7(&moved(&[0, 2, 8, 13, 17], &[2, -1]), GAP);
}
pub fn h_c07_cut() {
    run7(&cut(), GAP);
}
fn eighths(v: I3) -> V {
    [v[0] as f32 / 8.0, v[1] as f32 / 8.0, v[2] as f32 / 8.0]
}
/// several brushes in several entities
pub fn h_c07_brushes() {
    let n = choose("brushes", 4);
    let m = choose("others", 3);
    let other = flag("class");
    let mut mids: Vec<V> = Vec::new();
    let mut map = Map::new();
    let mut put = |map: &mut Map, count: usize, far: i64, e: usize| -> Vec<V> {
        let mut r = Vec::new();
        for b in 0..count {
            let t = at(&format!("t{}{}", e, b), far);
            let w = [size(&format!("w{}{}", e, b), 256), [16, 48, 128][b], 8];
            let (lo, hi) = (eighths(t), eighths([t[0] + w[0], t[1] + w[1], t[2] + w[2]]));
            if b == 1 || e == 1 && count == 1 {
                // another number of faces, and a centre away from the middle
                let (tri, inside) = nominal([8, 0, 2][count % 3]);
                let pl = placed(&tri, inside, [[80, -1200, 24], [4800, 0, -40]][e], 64);
                let cs = corners(&pl, 0.03);
                map.brush(&faces(&pl));
                r.push(brush_centre(&pl, &cs));
                continue;
            }
            map.brush(&cuboid(lo, hi, "f0"));
            r.push([(lo[0] + hi[0]) * 0.5, (lo[1] + hi[1]) * 0.5, (lo[2] + hi[2]) * 0.5]);
        }
        r
    };
    map.class("worldspawn");
    let own = put(&mut map, n, 3584, 0);
    mids.push(mean(&own));
    map.close();
    map.class(if other { "func_door" } else { "nobody" });
    mids.push(mean(&put(&mut map, m, 1024, 1)));
    map.close();
    let c = cfg(1, CollisionType::Convex).class("func_door", VisualType::None, CollisionType::None);
    if let Some(s) = scene(&map, c) {
        check(s.len() == 2, "two actors");
        let shapes = convex(&s[0]);
        check(shapes.len() == n, "a shape for each brush");
        for b in 0..shapes.len().min(n) {
            check(close(shapes[b].0, own[b], 0.002), "a brush's centre is the mean of its face centres");
        }
        for i in 0..s.len().min(2) {
            check(close(v3(s[i].origin), mids[i], 0.002), "an entity's centre is the mean of its brush centres");
            if i == 0 && n == 0 || i == 1 && m == 0 {
                let o = v3(s[i].origin);
                check(o[0] == 0.0 && o[1] == 0.0 && o[2] == 0.0, "an entity without brushes is at the middle");
                reach("none");
            }
        }
        if n > 1 {
            reach("several");
        }
    }
}
/// an origin wins over the brushes
pub fn h_c07_origin() {
    let brushes = 2 * choose("brushes", 2);
    let kinds = 5;
    let mut text = String::new();
    let mut want = [0.0f32; 3];
    let n = choose("components", 4);
    for i in 0..n {
        let t = match choose(["x", "y", "z"][i], kinds) {
            0 => {
                let v = fl(["nx", "ny", "nz"][i], -1.0e30, 1.0e30);
                want[i] = v;
                ft(v)
            }
            1 => {
                let v = int(["ix", "iy", "iz"][i], 64, -(1 << 24), 1 << 24);
                want[i] = v as f32;
                ft(v as f32)
            }
            2 => "".to_string(),
            3 => "x1".to_string(),
            _ => {
                want[i] = [-17.0, 4096.0, 0.5][i];
                ["-17", "+4096", ".5"][i].to_string()
            }
        };
        if i > 0 {
            text.push(' ');
        }
        text.push_str(&t);
    }
    let on = if n == 1 { choose("entity", 3) } else { 1 };
    let mut m = Map::new();
    for e in 0..3 {
        m.class(["worldspawn", "func_door", "light"][e]);
        if e == on {
            m.prop("origin", &text);
        }
        for b in 0..brushes {
            m.brush(&cuboid([b as f32 * 64.0, 0.0, 0.0], [32.0 + b as f32 * 64.0, 16.0, 8.0], "f0"));
        }
        m.close();
    }
    let c = cfg(1, CollisionType::None).class("func_door", VisualType::Mesh, CollisionType::Convex);
    if let Some(s) = scene(&m, c) {
        check(s.len() == 3, "three actors");
        let mid = [[0.0, 0.0, 0.0], [16.0, 8.0, 4.0], [48.0, 8.0, 4.0]][brushes];
        for e in 0..s.len() {
            let o = v3(s[e].origin);
            if e == on {
                check((o[0] == want[0]) & (o[1] == want[1]) & (o[2] == want[2]), "the origin is the centre, missing or unreadable components are 0");
                reach("origin");
            } else {
                check(close(o, mid, 0.001), "the origin of another entity changes nothing");
            }
        }
    }
}
