//! C11, C14-C17: which faces and brushes land where in meshes and collision.
use crate::geo::{corners, flat_at, nominal, placed, Corner, Plane};
use crate::prelude::*;
use crate::scene::*;

/// a solid at a symbolic or fixed place
#[derive(Clone)]
pub struct Shape {
    pub planes: Vec<Plane>,
    /// corners before the move (units), and after it
    pub nom: Vec<[f64; 3]>,
    pub real: Vec<V>,
    /// corners of each face
    pub on: Vec<Vec<usize>>,
    /// planes through each corner
    pub through: Vec<Vec<usize>>,
    /// how far apart equal positions may be
    pub eps: f32,
}
pub const TETRA: usize = 0;
pub const RAMP: usize = 8;
pub const BOX: usize = 23;
pub const PYRAMID: usize = 2;

pub fn shape(kind: usize, t: [i64; 3], s: i64) -> Shape {
    let (tri, inside) = nominal(kind);
    let still = placed(&tri, inside, [0; 3], s);
    shape_of(&corners(&still, 0.0), placed(&tri, inside, t, s), t)
}
/// from the corners before the move and the planes after it
pub fn shape_of(cs: &[Corner], planes: Vec<Plane>, t: [i64; 3]) -> Shape {
    let mut r = Shape { planes, nom: Vec::new(), real: Vec::new(), on: Vec::new(), through: Vec::new(), eps: 0.01 };
    for c in cs {
        let k = c.det as f64 * r.planes[0].u as f64;
        r.nom.push([c.num[0] as f64 / k, c.num[1] as f64 / k, c.num[2] as f64 / k]);
        r.real.push([t[0] as f32 / 8.0 + c.at[0], t[1] as f32 / 8.0 + c.at[1], t[2] as f32 / 8.0 + c.at[2]]);
        r.through.push(c.on.clone());
    }
    for i in 0..r.planes.len() {
        r.on.push((0..cs.len()).filter(|c| cs[*c].on.contains(&i)).collect());
    }
    r
}
/// a roof of little slope or a box cut by a hair
pub fn flat_shape(kind: usize, deep: usize) -> Shape {
    let (pl, _) = flat_at([0; 3], kind, deep);
    let mut s = shape_of(&corners(&pl, 0.0), pl, [0; 3]);
    s.eps = 0.003;
    s
}
impl Shape {
    pub fn faces(&self, tex: &[&str]) -> Vec<Face> {
        self.planes.iter().enumerate().map(|(i, p)| p.face(tex[i % tex.len()])).collect()
    }
    pub fn len(&self) -> usize {
        self.planes.len()
    }
    /// triangles of a face
    pub fn count(&self, f: usize) -> usize {
        self.on[f].len().max(2) - 2
    }
    /// do these triangles cover face `f`, each the right way round?
    pub fn covered(&self, f: usize, tris: &[V]) -> bool {
        let on = &self.on[f];
        if tris.len() != 3 * self.count(f) {
            return false;
        }
        if tris.is_empty() {
            return true; // merely touches the solid, if at all
        }
        let mut ix = Vec::new();
        for v in tris {
            let mut m = None;
            for c in on {
                if close(*v, self.real[*c], self.eps) {
                    m = Some(*c);
                }
            }
            match m {
                Some(c) => ix.push(c),
                None => return false,
            }
        }
        let n = self.planes[f].n;
        let mut e: Vec<(usize, usize)> = Vec::new();
        for t in ix.chunks(3) {
            let p = |i: usize| self.nom[t[i]];
            let d = |a: [f64; 3], b: [f64; 3]| [a[0] - b[0], a[1] - b[1], a[2] - b[2]];
            let (a, b) = (d(p(1), p(0)), d(p(2), p(0)));
            let x = [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]];
            let side = x[0] * n[0] as f64 + x[1] * n[1] as f64 + x[2] * n[2] as f64;
            if !(side < -1e-9) {
                return false;
            }
            e.push((t[0], t[1]));
            e.push((t[1], t[2]));
            e.push((t[2], t[0]));
        }
        let mut outline = 0;
        for x in &e {
            if e.iter().filter(|y| *y == x).count() != 1 {
                return false;
            }
            let rim = self.through[x.0].iter().any(|j| {
                // the same plane again does not make an edge
                *j != f && self.through[x.1].contains(j) && !on.iter().all(|c| self.through[*c].contains(j))
            });
            let back = e.iter().any(|y| y.0 == x.1 && y.1 == x.0);
            if rim == back {
                return false;
            }
            outline += rim as usize;
        }
        outline == on.len()
    }
}
/// triangles in order, as positions
fn flat(vertices: &[V], indices: &[usize]) -> Option<Vec<V>> {
    indices.iter().map(|i| vertices.get(*i).copied()).collect()
}
/// the triangles are those of these faces, in this order
pub fn covers(vertices: &[V], indices: &[usize], want: &[(&Shape, usize)], label: &str) {
    let v = match flat(vertices, indices) {
        Some(v) => v,
        None => {
            check(false, "every index refers to a vertex");
            return;
        }
    };
    let total: usize = want.iter().map(|(s, f)| 3 * s.count(*f)).sum();
    check(v.len() == total, "exactly the triangles of the faces");
    if v.len() != total {
        return;
    }
    let mut at = 0;
    for (s, f) in want {
        let n = 3 * s.count(*f);
        check(s.covered(*f, &v[at..at + n]), label);
        at += n;
    }
}
fn verts(s: &MeshSurface) -> Vec<V> {
    s.vertices.iter().map(|v| v3(*v)).collect()
}
pub fn surface_covers(s: &MeshSurface, want: &[(&Shape, usize)], label: &str) {
    covers(&verts(s), &s.indices, want, label);
    let n = s.vertices.len();
    check(s.normals.len() == n && s.tangents.len() == n, "all lists are as long as the vertex list");
    if let Some(u) = &s.uvs {
        check(u.len() == n, "all lists are as long as the vertex list");
    }
    if let Some(c) = &s.colors {
        check(c.len() == n, "all lists are as long as the vertex list");
    }
}
/// one convex shape for each brush with its corners, each once
pub fn convex_is(node: &SceneTreeNode, want: &[&Shape]) {
    let c = convex(node);
    check(c.len() == want.len(), "one convex shape for each brush");
    for (c, w) in c.iter().zip(want.iter()) {
        let mut seen = vec![0; w.real.len()];
        let mut stray = false;
        for p in &c.1 {
            let mut hit = false;
            for (i, r) in w.real.iter().enumerate() {
                if close(*p, *r, w.eps) {
                    seen[i] += 1;
                    hit = true;
                }
            }
            stray |= !hit;
        }
        check(!stray, "every point is a corner of the brush");
        check(seen.iter().all(|n| *n > 0), "every corner of the brush is a point");
        for i in 0..c.1.len() {
            for j in 0..i {
                let (a, b) = (c.1[i], c.1[j]);
                check(!((a[0] == b[0]) & (a[1] == b[1]) & (a[2] == b[2])), "each point is there once");
            }
        }
        check(close(c.0, middle(w), 0.01), "the centre is that of the brush");
    }
}
pub fn middle(s: &Shape) -> V {
    let mut m = [0f64; 3];
    let mut n = 0.0;
    for f in 0..s.len() {
        if s.on[f].is_empty() {
            continue;
        }
        n += 1.0;
        for c in &s.on[f] {
            for k in 0..3 {
                m[k] += s.nom[*c][k] / s.on[f].len() as f64;
            }
        }
    }
    // the move is the same for all corners
    let mut r = [0.0; 3];
    for k in 0..3 {
        r[k] = s.real[0][k] - s.nom[0][k] as f32 + (m[k] / n) as f32;
    }
    r
}
/// one shape with all triangles
pub fn concave_is(node: &SceneTreeNode, want: &[&Shape], centre: V) {
    let c = concave(node);
    check(c.len() == 1, "one concave shape");
    if c.len() != 1 {
        return;
    }
    let c = &c[0];
    check(close(c.0, centre, 0.01), "the centre is that of the entity");
    let mut l = Vec::new();
    for w in want {
        for f in 0..w.len() {
            l.push((*w, f));
        }
    }
    covers(&c.1, &c.2, &l, "the collision has the triangles of every face in order");
    // stored once within a brush, separately in different ones
    let total: usize = want.iter().map(|w| w.real.len()).sum();
    check(c.1.len() >= total, "positions of different brushes are stored separately");
    let mut at = 0;
    let mut k = 0;
    for w in want {
        let n: usize = (0..w.len()).map(|f| 3 * w.count(f)).sum();
        if c.2.len() < at + n {
            return;
        }
        let ix = &c.2[at..at + n];
        at += n;
        let lo = ix.iter().min().copied().unwrap_or(k);
        let hi = ix.iter().max().copied().unwrap_or(k);
        check(lo == k, "positions of different brushes are stored separately");
        for i in lo..=hi.min(c.1.len() - 1) {
            for j in lo..i {
                let (a, b) = (c.1[i], c.1[j]);
                check(!((a[0] == b[0]) & (a[1] == b[1]) & (a[2] == b[2])), "a position is stored once within a brush");
            }
        }
        k = hi + 1;
    }
    check(k == c.1.len(), "no position is stored for nothing");
}
fn spot(name: &str) -> [i64; 3] {
    [int(&format!("{}x", name), 64, -8 * 1024, 8 * 1024), 8 * 24, -8 * 40]
}
fn map_of(class: &str, brushes: &[Vec<Face>]) -> Map {
    let mut m = Map::new();
    if class != "worldspawn" {
        m.class("worldspawn");
        m.close();
    }
    m.class(class);
    for b in brushes {
        m.brush(b);
    }
    m.close();
    m
}
fn centre_of(shapes: &[&Shape]) -> V {
    let mut m = [0.0f32; 3];
    for s in shapes {
        let c = middle(s);
        for k in 0..3 {
            m[k] += c[k] / shapes.len() as f32;
        }
    }
    m
}

// ---- C14

const TX: [&str; 3] = ["aaa", "bbb", "ccc"]; // the last is unknown
/// is the surface there, with exactly these faces?
fn expect_surfaces(node: &SceneTreeNode, shapes: &[(&Shape, Vec<&str>)], known: &[&str], bl_brush: &[&str], bl_plane: &[&str], mesh: bool) {
    let mut total = 0;
    let sf = surfaces(node);
    let shown: Vec<&(&Shape, Vec<&str>)> = shapes
        .iter()
        .filter(|(s, t)| (0..s.len()).any(|f| !(known.contains(&t[f % t.len()]) && bl_brush.contains(&t[f % t.len()]))))
        .collect();
    for k in known.iter().map(|k| Some(*k)).chain([None]) {
        let mut want: Vec<(&Shape, usize)> = Vec::new();
        for (s, t) in &shown {
            for f in 0..s.len() {
                let tex = t[f % t.len()];
                let mine = match k {
                    Some(k) => tex == k && !bl_plane.contains(&k),
                    None => !known.contains(&tex),
                };
                if mine && s.count(f) > 0 {
                    want.push((*s, f));
                }
            }
        }
        let got: Vec<&MeshSurface> = sf.iter().filter(|s| s.texture.as_deref() == k).collect();
        if want.is_empty() || !mesh {
            check(got.is_empty(), "no surface without faces");
        } else {
            total += 1;
            check(got.len() == 1, "one surface for a texture");
            if got.len() == 1 {
                surface_covers(got[0], &want, "a surface has the triangles of its faces in order");
            }
        }
    }
    check(sf.len() == total, "no other surface");
    check(visual_nodes(node) == (total > 0) as usize, "a visual node if there is something to see");
}
/// a tetrahedron with any textures, and any blacklists
pub fn h_c14_faces() {
    let s = shape(TETRA, spot("t"), 64);
    let t: Vec<&str> = (0..4).map(|i| TX[choose(["f0", "f1", "f2", "f3"][i], 3)]).collect();
    let mut c = Cfg::new().texture(TX[0], 64, 64).texture(TX[1], 32, 32).class("worldspawn", VisualType::Mesh, CollisionType::None);
    let mut lists: [Vec<&str>; 2] = [vec![], vec![]];
    for k in 0..2 {
        // the order of a list does not matter, nor names that do not occur
        match choose(["brush", "plane"][k], 4) {
            0 => {}
            1 => lists[k] = vec!["zzz", "aaa"],
            2 => lists[k] = vec!["bbb"],
            _ => lists[k] = vec!["bbb", "aaa", "ccc"],
        }
    }
    c.bl_brush = lists[0].iter().map(|x| x.to_string()).collect();
    c.bl_plane = lists[1].iter().map(|x| x.to_string()).collect();
    let m = map_of("worldspawn", &[s.faces(&t)]);
    if let Some(r) = scene(&m, c) {
        expect_surfaces(&r[0], &[(&s, t)], &TX[..2], &lists[0], &lists[1], true);
        reach("end");
    }
}
const MIX: [&[&str]; 7] = [&["aaa"], &["bbb"], &["ccc"], &["aaa", "bbb"], &["aaa", "ccc"], &["ccc", "bbb", "aaa"], &["bbb", "bbb", "aaa"]];
fn several(n: usize, pats: usize) {
    let kinds = [BOX, TETRA, RAMP, BOX];
    let class = ["worldspawn", "func_wall", "undefined", "func_point", "func_hidden"][choose("class", 5)];
    let mesh = class == "worldspawn" || class == "func_wall";
    let mut shapes = Vec::new();
    let mut tex = Vec::new();
    for i in 0..n {
        shapes.push(shape(kinds[i], if i == 0 { spot("t") } else { [i as i64 * 640, 8 * 24, -8 * 40] }, 64));
        tex.push(MIX[choose(&format!("mix{}", i), pats)].to_vec());
    }
    let lists: [(&[&str], &[&str]); 5] =
        [(&[], &[]), (&["aaa"], &[]), (&["bbb", "aaa"], &[]), (&["bbb"], &["aaa"]), (&["ccc"], &["bbb", "ccc"])];
    let (bb, bp) = lists[if mesh { choose("lists", 5) } else { 0 }];
    let mut c = Cfg::new()
        .texture("bbb", 32, 32)
        .texture("aaa", 64, 64)
        .class("worldspawn", VisualType::Mesh, CollisionType::None)
        .class("func_wall", VisualType::Mesh, CollisionType::None)
        .class("func_hidden", VisualType::None, CollisionType::None);
    c.defs.push(Def::point("func_point".into(), EntityType::Placeholder, ComponentType::None, PropertyApplicationType::Properties, Properties::default()));
    c.bl_brush = bb.iter().map(|x| x.to_string()).collect();
    c.bl_plane = bp.iter().map(|x| x.to_string()).collect();
    let brushes: Vec<Vec<Face>> = shapes.iter().zip(tex.iter()).map(|(s, t)| s.faces(t)).collect();
    let m = map_of(class, &brushes);
    if let Some(r) = scene(&m, c) {
        let node = &r[r.len() - 1];
        let l: Vec<(&Shape, Vec<&str>)> = shapes.iter().zip(tex.iter()).map(|(s, t)| (s, t.clone())).collect();
        expect_surfaces(node, &l, &TX[..2], bb, bp, mesh);
        if mesh {
            reach("mesh");
        } else {
            reach("no mesh");
        }
    }
}
pub fn h_c14_brushes() {
    several(2, 7);
}
pub fn h_c14_brushes_deep() {
    several(3, 7);
}
/// more brushes than a byte can number vertices of
fn large(n: usize) -> Vec<Shape> {
    let mut v = Vec::new();
    for i in 0..n {
        let k = [BOX, BOX, RAMP, BOX, 25, BOX, TETRA][i % 7];
        let at = [(i % 8) as i64 * 320, (i / 8) as i64 * 640, 8];
        v.push(shape(k, if i + 1 == n && (k == BOX || k == TETRA) { spot("t") } else { at }, 32));
    }
    v
}
pub fn h_c14_large() {
    let n = [14, 28][choose("brushes", 2)];
    let shapes = large(n);
    let step = 1 + choose("textures", 3);
    let l: Vec<(&Shape, Vec<&str>)> = shapes.iter().enumerate().map(|(i, s)| (s, vec![["aaa", "ccc", "bbb"][i % step]])).collect();
    let brushes: Vec<Vec<Face>> = l.iter().map(|(s, t)| s.faces(t)).collect();
    let m = map_of("worldspawn", &brushes);
    let c = Cfg::new().texture("aaa", 64, 64).texture("bbb", 32, 32).class("worldspawn", VisualType::Mesh, CollisionType::None);
    if let Some(r) = scene(&m, c) {
        expect_surfaces(&r[0], &l, &TX[..2], &[], &[], true);
        reach("end");
    }
}
pub fn h_c17_large() {
    let n = [2, 36, 44][choose("brushes", 3)];
    let shapes = large(n);
    let brushes: Vec<Vec<Face>> = shapes.iter().map(|s| s.faces(&["aaa"])).collect();
    let m = map_of("worldspawn", &brushes);
    let c = Cfg::new().texture("aaa", 64, 64).class("worldspawn", VisualType::None, CollisionType::Concave);
    if let Some(r) = scene(&m, c) {
        let l: Vec<&Shape> = shapes.iter().collect();
        concave_is(&r[0], &l, centre_of(&l));
        reach("end");
    }
}
pub fn h_c16_large() {
    let n = [2, 36, 44][choose("brushes", 3)];
    let shapes = large(n);
    let brushes: Vec<Vec<Face>> = shapes.iter().map(|s| s.faces(&["aaa"])).collect();
    let m = map_of("worldspawn", &brushes);
    let c = Cfg::new().texture("aaa", 64, 64).class("worldspawn", VisualType::None, CollisionType::Convex);
    if let Some(r) = scene(&m, c) {
        let l: Vec<&Shape> = shapes.iter().collect();
        convex_is(&r[0], &l);
        reach("end");
    }
}
/// indices of several brushes together
pub fn h_c06_large() {
    let n = [1, 2, 4, 7, 14, 20][choose("brushes", 6)];
    let shapes = large(n);
    let step = 1 + choose("textures", 3);
    let l: Vec<(&Shape, Vec<&str>)> = shapes.iter().enumerate().map(|(i, s)| (s, [&["aaa"][..], &["bbb", "aaa", "ccc"], &["bbb"]][i % step].to_vec())).collect();
    let brushes: Vec<Vec<Face>> = l.iter().map(|(s, t)| s.faces(t)).collect();
    let m = map_of("worldspawn", &brushes);
    let c = Cfg::new().texture("aaa", 64, 64).texture("bbb", 32, 32).class("worldspawn", VisualType::Mesh, CollisionType::Concave);
    if let Some(r) = scene(&m, c) {
        for s in surfaces(&r[0]) {
            check(s.indices.iter().all(|i| *i < s.vertices.len()), "every index of a surface refers to a vertex of it");
        }
        for s in concave(&r[0]) {
            check(s.2.iter().all(|i| *i < s.1.len()), "every index of a collision mesh refers to a vertex of it");
        }
        expect_surfaces(&r[0], &l, &TX[..2], &[], &[], true);
        let v: Vec<&Shape> = shapes.iter().collect();
        concave_is(&r[0], &v, centre_of(&v));
        reach("end");
    }
}
/// one texture on faces far apart, with many others in between
pub fn h_c14_far() {
    let n = 6;
    let kinds = [TETRA, 25, BOX, 24, RAMP, 25];
    let way = choose("way", 6);
    let mut shapes = Vec::new();
    let mut tex: Vec<Vec<&str>> = Vec::new();
    for i in 0..n {
        shapes.push(shape(kinds[i], if i == 0 { spot("t") } else { [i as i64 * 640, 8 * 24, -8 * 40] }, 64));
        tex.push(match (way, i) {
            (0, 0) | (0, 5) => vec!["aaa"],
            (1, 0) | (1, 3) => vec!["aaa", "bbb"],
            (2, i) => vec![FAR[i]],
            (3, i) => FAR[i..].to_vec(),
            (4, 2) => vec!["bbb", "ccc", "bbb", "ccc", "ccc", "aaa"],
            (5, 5) => vec!["aaa", "bbb", "bbb", "bbb", "bbb", "bbb", "bbb", "bbb", "bbb", "bbb", "bbb", "bbb", "aaa", "bbb", "ccc"],
            (_, i) => vec![FAR[1 + i % 2]],
        });
    }
    let lists: [(&[&str], &[&str]); 4] = [(&[], &[]), (&["bbb"], &[]), (&["t5", "zz", "aaa"], &["t4", "t1", "bbb"]), (&[], &["t3", "ccc", "t5", "t1"])];
    let (bb, bp) = lists[choose("lists", 4)];
    let known = ["t3", "aaa", "t5", "bbb", "t1"];
    let mut c = Cfg::new().class("worldspawn", VisualType::Mesh, CollisionType::None);
    for k in known {
        c = c.texture(k, 64, 64);
    }
    c.bl_brush = bb.iter().map(|x| x.to_string()).collect();
    c.bl_plane = bp.iter().map(|x| x.to_string()).collect();
    let brushes: Vec<Vec<Face>> = shapes.iter().zip(tex.iter()).map(|(s, t)| s.faces(t)).collect();
    let m = map_of("worldspawn", &brushes);
    if let Some(r) = scene(&m, c) {
        let l: Vec<(&Shape, Vec<&str>)> = shapes.iter().zip(tex.iter()).map(|(s, t)| (s, t.clone())).collect();
        expect_surfaces(&r[0], &l, &known, bb, bp, true);
        reach("end");
    }
}
const FAR: [&str; 6] = ["aaa", "bbb", "ccc", "t3", "aaa", "t5"];
/// names that begin or end like others, or contain them
pub fn h_c14_alike() {
    let s = shape(TETRA, [0, 0, 0], 64);
    let names = ["ab", "abc", "b", "bc", "a", "abab", "c_ab", "ab_", "zab"];
    let t = [names[choose("f0", names.len())], names[choose("f1", 3)]];
    let k = choose("known", 4);
    let known: Vec<&str> = names.iter().enumerate().filter(|(i, _)| k == 0 || i % 3 != k - 1).map(|x| *x.1).collect();
    let mut c = Cfg::new().class("worldspawn", VisualType::Mesh, CollisionType::None);
    for k in &known {
        c = c.texture(k, 64, 64);
    }
    // names in the map are lower-cased, those of the lists are taken as they are
    let bb = ["ab", "b", "abab", "AB"][choose("brush", 4)];
    let bp = ["ab", "bc", "c_ab", "Ab"][choose("plane", 4)];
    c.bl_brush = vec![bb.to_string()];
    c.bl_plane = vec![bp.to_string()];
    let m = map_of("worldspawn", &[s.faces(&t)]);
    if let Some(r) = scene(&m, c) {
        expect_surfaces(&r[0], &[(&s, t.to_vec())], &known, &[bb], &[bp], true);
        reach("end");
    }
}
/// names are told apart letter by letter
pub fn h_c14_names() {
    hash_mode(1);
    let s = shape(TETRA, [0, 0, 0], 64);
    // letters that lower-casing leaves alone
    let ch = |n: &str| un(n, 8, 97, 122) as u8;
    let f = [[ch("a0"), ch("a1")], [ch("b0"), ch("b1")]];
    let (kn, bb, bp) = ([ch("k0"), ch("k1")], [ch("bb0"), ch("bb1")], [ch("bp0"), ch("bp1")]);
    let text = |b: &[u8]| crate::tree::string(b);
    let mut map = Map::new();
    map.class("worldspawn");
    map.open();
    for (i, x) in s.faces(&["@"]).iter().enumerate() {
        let mut l: Vec<u8> = Vec::new();
        for c in x.text().bytes() {
            if c == b'@' {
                l.extend_from_slice(&f[i % 2]);
            } else {
                l.push(c);
            }
        }
        map.raw(&l);
    }
    map.close();
    map.close();
    let mut c = Cfg::new().texture(&text(&kn), 64, 64).class("worldspawn", VisualType::Mesh, CollisionType::None);
    c.bl_brush = vec![text(&bb)];
    c.bl_plane = vec![text(&bp)];
    let known = [same(&f[0], &kn), same(&f[1], &kn)];
    let brush = (known[0] && same(&f[0], &bb)) && (known[1] && same(&f[1], &bb));
    let plane = same(&kn, &bp);
    if let Some(r) = scene(&map, c) {
        let sf = surfaces(&r[0]);
        let mut tri = [0, 0];
        for x in sf {
            match &x.texture {
                Some(t) => {
                    check(same(t.as_bytes(), &kn), "a surface has the name of its texture");
                    tri[0] += x.indices.len() / 3;
                }
                None => tri[1] += x.indices.len() / 3,
            }
        }
        let n = known[0] as usize * 2 + known[1] as usize * 2;
        check(tri[0] == if brush || plane { 0 } else { n }, "a blacklisted texture is not shown");
        check(tri[1] == if brush { 0 } else { 4 - n }, "faces of unknown texture are shown unless their brush is left out");
        if brush {
            check(sf.is_empty(), "nothing of a left-out brush is shown");
            reach("brush");
        } else if plane {
            reach("plane");
        } else {
            reach("shown");
        }
    }
}

// ---- C16, C17

fn config16(class: &str, col: CollisionType) -> Cfg {
    let mut c = Cfg::new().texture("aaa", 64, 64).texture("bbb", 32, 32).class("other", VisualType::None, CollisionType::None);
    c.bl_brush = vec!["aaa".into(), "clip".into()];
    c.bl_plane = vec!["bbb".into()];
    match choose("definition", 4) {
        0 => c = c.class(class, VisualType::Mesh, col),
        1 => c = c.class(class, VisualType::None, col),
        2 => {
            c.defs.push(Def::point(class.into(), EntityType::Placeholder, ComponentType::None, PropertyApplicationType::Properties, Properties::default()));
            c = c.class(class, VisualType::None, col);
        }
        _ => {}
    }
    c
}
fn collision(n: usize, deep: bool, col: CollisionType, kinds: &[usize]) {
    let class = ["worldspawn", "func_wall"][choose("class", 2)];
    let count = choose("brushes", n + 1);
    let mut shapes = Vec::new();
    let mut brushes = Vec::new();
    let same_place = count > 1 && flag("twice");
    for i in 0..count {
        let k = if same_place { kinds[0] } else if i > 1 && !deep { kinds[(i + 1) % kinds.len()] } else { kinds[choose(&format!("kind{}", i), kinds.len())] };
        // rounding at arbitrary places is left to C05; here positions are compared exactly
        let at = if same_place || i > 0 || k != BOX { [8 * 16, i as i64 * if same_place { 0 } else { 640 }, 8] } else { spot("t") };
        let s = shape(k, at, 64);
        brushes.push(s.faces(MIX[[0, 3, 5][i % 3]]));
        shapes.push(s);
    }
    let mut m = map_of(class, &brushes);
    let origin = flag("origin");
    if origin {
        let at = m.lines.len() - 1;
        let x = [grid("ox", -8192, 8192, 3), grid("oy", -8192, 8192, 3)];
        let mut l = String::from("\"origin\" \"");
        l.push_str(&[ft(x[0]), ft(x[1]), "3".into()].join(" "));
        l.push('"');
        m.lines.insert(at, l.into_bytes());
    }
    let c = config16(class, col);
    let with = c.defs.iter().find(|d| d.classname == class).map_or(false, |d| matches!(d.data, quarchitect::game_data::EntityData::Brush(..)));
    if let Some(r) = scene(&m, c) {
        let node = &r[r.len() - 1];
        let l: Vec<&Shape> = shapes.iter().collect();
        check(collision_nodes(node) == (with && count > 0) as usize, "collision for brushes of a class with collision");
        if !with || count == 0 {
            reach("none");
            return;
        }
        if col == CollisionType::Convex {
            convex_is(node, &l);
        } else {
            let o = v3(node.origin);
            concave_is(node, &l, if origin { o } else { centre_of(&l) });
        }
        reach("shapes");
    }
}
pub fn h_c16_brushes() {
    collision(5, false, CollisionType::Convex, &[BOX, TETRA]);
}
pub fn h_c16_brushes_deep() {
    collision(3, true, CollisionType::Convex, &[BOX, TETRA, PYRAMID]);
}
pub fn h_c17_brushes() {
    collision(5, false, CollisionType::Concave, &[BOX, TETRA, RAMP]);
}
pub fn h_c17_brushes_deep() {
    collision(3, true, CollisionType::Concave, &[BOX, TETRA, RAMP]);
}
/// any of the solids, also with redundant planes
fn one_solid(col: CollisionType) {
    let k = choose("solid", 24);
    let s = shape(if k < 22 { k } else { k + 2 }, [[80, 0, -1203, 4801][choose("x", 4)], [24, 0][choose("y", 2)], -40], 64);
    let m = map_of("worldspawn", &[s.faces(&["aaa"])]);
    let c = Cfg::new().texture("aaa", 64, 64).class("worldspawn", VisualType::None, col);
    if let Some(r) = scene(&m, c) {
        if col == CollisionType::Convex {
            convex_is(&r[0], &[&s]);
        } else {
            concave_is(&r[0], &[&s], middle(&s));
        }
        reach("end");
    }
}
/// corners close together, faces close to each other
fn one_flat(col: CollisionType) {
    let kind = choose("kind", 6);
    let s = flat_shape(kind, if kind < 3 { 0 } else { choose("deep", 3) });
    let mut fs = s.faces(&["aaa"]);
    let turn = choose("turn", fs.len());
    fs.rotate_left(turn);
    let mut s = s;
    s.planes.rotate_left(turn);
    s.on.rotate_left(turn);
    let n = s.planes.len();
    for t in s.through.iter_mut() {
        for i in t.iter_mut() {
            *i = (*i + n - turn) % n;
        }
    }
    let m = map_of("worldspawn", &[fs]);
    let c = Cfg::new().texture("aaa", 64, 64).class("worldspawn", VisualType::None, col);
    if let Some(r) = scene(&m, c) {
        if col == CollisionType::Convex {
            convex_is(&r[0], &[&s]);
        } else {
            concave_is(&r[0], &[&s], middle(&s));
        }
        reach("end");
    }
}
pub fn h_c16_flat() {
    one_flat(CollisionType::Convex);
}
pub fn h_c17_flat() {
    one_flat(CollisionType::Concave);
}
pub fn h_c16_solids() {
    one_solid(CollisionType::Convex);
}
pub fn h_c17_solids() {
    one_solid(CollisionType::Concave);
}

// ---- C11

const LIQ: [&str; 4] = ["*water0", "*slime0", "wall", "*lava0"];
/// textures of the faces of a brush
fn liquid(k: usize) -> Vec<&'static str> {
    match k {
        0 => vec![LIQ[0]],
        1 => vec![LIQ[1]],
        2 => vec![LIQ[2]],
        3 => vec![LIQ[2], LIQ[0], LIQ[0]],
        4 => vec![LIQ[1], LIQ[0], LIQ[0], LIQ[0], LIQ[0], LIQ[0]],
        5 => vec![LIQ[0], LIQ[0], LIQ[0], LIQ[2]],
        _ => vec![LIQ[3]],
    }
}
fn layer_def(i: usize, name: &str, seed: usize) -> WorldspawnLayer {
    let tex = LIQ[seed % 3];
    let vis = [VisualType::None, VisualType::Mesh][seed / 3 % 2];
    let col = [CollisionType::None, CollisionType::Convex, CollisionType::Concave][seed / 6 % 3];
    let et = match (i + seed) % 3 {
        0 => EntityType::Placeholder,
        1 => EntityType::class("Kl"),
        _ => EntityType::prefab("Pl"),
    };
    let ct = if (i + seed) % 2 == 0 { ComponentType::Script("Sl".into()) } else { ComponentType::None };
    WorldspawnLayer::new(name.into(), tex.into(), et, ct, vis, col)
}
const LN: [&str; 4] = ["la", "lb", "lc", "ld"];

fn expect_layers(r: &[SceneTreeNode], shapes: &[Shape], kinds: &[usize], known: [bool; 2], defs: &[WorldspawnLayer], extra: usize) {
    let mut rest: Vec<usize> = (0..shapes.len()).collect();
    let mut want: Vec<(&WorldspawnLayer, Vec<&Shape>, usize)> = Vec::new();
    for l in 0..2 {
        let mine: Vec<usize> = (0..shapes.len()).filter(|i| kinds[*i] == l && known[l]).collect();
        rest.retain(|i| !mine.contains(i));
        let d: Vec<&WorldspawnLayer> = defs.iter().filter(|d| d.texture == LIQ[l]).collect();
        if d.len() == 1 && !mine.is_empty() && (d[0].visual_type == VisualType::Mesh || d[0].collision_type != CollisionType::None) {
            want.push((d[0], mine.iter().map(|i| &shapes[*i]).collect(), l));
        }
    }
    check(r.len() == 1 + want.len() + extra, "an actor for each layer that has brushes and one definition");
    if r.len() != 1 + want.len() + extra {
        return;
    }
    for i in 0..want.len() {
        // which of the liquids comes first is left open
        let n = &r[1 + i];
        let w = match want.iter().find(|w| w.0.name == name(n)) {
            Some(w) => w,
            None => {
                check(false, "a layer has the name of its definition");
                continue;
            }
        };
        let (a, k) = actor(n).unwrap();
        check(v3(n.origin) == [0.0; 3], "a layer is at the middle");
        let (e, f) = (&a.entity_type, &w.0.entity_type);
        let same_type = match (e, f) {
            (EntityType::Placeholder, EntityType::Placeholder) => true,
            (EntityType::Class(a), EntityType::Class(b)) | (EntityType::Prefab(a), EntityType::Prefab(b)) => a == b,
            _ => false,
        };
        check(same_type, "a layer has the type of its definition");
        let script = match &w.0.component_type {
            ComponentType::None => None,
            ComponentType::Script(s) => Some(s.as_str()),
        };
        check(a.component_class.as_deref() == script, "a layer has the script of its definition");
        let mesh = w.0.visual_type == VisualType::Mesh;
        check(visual_nodes(n) == mesh as usize, "a layer has visuals if asked for");
        check(collision_nodes(n) == (w.0.collision_type != CollisionType::None) as usize, "a layer has collision if asked for");
        check(k.len() == visual_nodes(n) + collision_nodes(n), "a layer has nothing else");
        if mesh {
            let sf = surfaces(n);
            check(sf.len() == 1 && sf[0].texture.as_deref() == Some(LIQ[w.2]), "a layer has one surface with its texture");
            let l: Vec<(&Shape, usize)> = w.1.iter().flat_map(|s| (0..s.len()).map(move |f| (*s, f))).collect();
            if sf.len() == 1 {
                surface_covers(&sf[0], &l, "a layer has exactly its brushes in map order");
            }
        }
        match w.0.collision_type {
            CollisionType::Convex => convex_is(n, &w.1),
            CollisionType::Concave => concave_is(n, &w.1, [0.0; 3]),
            _ => {}
        }
        reach("layer");
    }
    // the rest stays with worldspawn
    let l: Vec<&Shape> = rest.iter().map(|i| &shapes[*i]).collect();
    check(collision_nodes(&r[0]) == !l.is_empty() as usize, "worldspawn keeps the other brushes");
    if !l.is_empty() {
        convex_is(&r[0], &l);
        reach("rest");
    }
    let known: Vec<&str> = (0..4).filter(|i| *i > 1 || known[*i]).map(|i| LIQ[i]).collect();
    let faces: Vec<(&Shape, Vec<&str>)> = rest.iter().map(|i| (&shapes[*i], liquid(kinds[*i]))).collect();
    expect_surfaces(&r[0], &faces, &known, &[], &[], true);
}
fn layers(n: usize, ndefs: usize) {
    let mut shapes = Vec::new();
    let mut kinds = Vec::new();
    let mut brushes = Vec::new();
    for i in 0..n {
        let k = choose(&format!("brush{}", i), 6);
        let s = shape([BOX, TETRA, RAMP][i % 3], if i == 0 { spot("t") } else { [i as i64 * 640, 8, 16] }, 64);
        brushes.push(s.faces(&liquid(k)));
        kinds.push(k);
        shapes.push(s);
    }
    let known = [choose("water", 2) == 0, choose("slime", 2) == 0];
    // water and slime once each; water twice; both kinds; none
    let sets: [&[usize]; 6] = [&[9, 16], &[4, 3, 9], &[13, 2], &[], &[0, 1, 2], &[10, 5, 15]];
    let set = sets[choose("definitions", ndefs)];
    let defs: Vec<WorldspawnLayer> = set.iter().enumerate().map(|(i, s)| layer_def(i, LN[i], *s)).collect();
    let mut c = Cfg::new().texture("wall", 64, 64).texture("*lava0", 64, 64).class("worldspawn", VisualType::Mesh, CollisionType::Convex);
    for l in 0..2 {
        if known[l] {
            c = c.texture(LIQ[l], 64, 64);
        }
    }
    c.layers = defs.clone();
    let m = map_of("worldspawn", &brushes);
    if let Some(r) = scene(&m, c) {
        expect_layers(&r, &shapes, &kinds, known, &defs, 0);
    }
}
pub fn h_c11_brushes() {
    layers(2, 3);
}
pub fn h_c11_brushes_deep() {
    layers(3, 6);
}
/// many brushes
pub fn h_c11_many() {
    let n = 9;
    let way = [[1, 0], [1, 3], [5, 1], [0, 0], [0, 1], [3, 2], [0, 5]][choose("way", 7)];
    let kinds: Vec<usize> = (0..n).map(|i| (i * way[0] + way[1]) % 6).collect();
    let shapes: Vec<Shape> = (0..n).map(|i| shape([BOX, TETRA, RAMP][i % 3], [i as i64 * 640, 8, 16], 64)).collect();
    let brushes: Vec<Vec<Face>> = (0..n).map(|i| shapes[i].faces(&liquid(kinds[i]))).collect();
    let sets: [&[usize]; 5] = [&[9, 16], &[4, 3, 9], &[13, 2], &[16, 15, 2, 14], &[10, 5, 15]];
    let set = sets[choose("definitions", 5)];
    let defs: Vec<WorldspawnLayer> = set.iter().enumerate().map(|(i, s)| layer_def(i, LN[i], *s)).collect();
    let known = [choose("water", 2) == 0, choose("slime", 2) == 0];
    let mut c = Cfg::new().texture("wall", 64, 64).texture("*lava0", 64, 64).class("worldspawn", VisualType::Mesh, CollisionType::Convex);
    for l in 0..2 {
        if known[l] {
            c = c.texture(LIQ[l], 64, 64);
        }
    }
    c.layers = defs.clone();
    let m = map_of("worldspawn", &brushes);
    if let Some(r) = scene(&m, c) {
        expect_layers(&r, &shapes, &kinds, known, &defs, 0);
        reach("end");
    }
}
/// any definitions
fn layer_defs(n: usize) {
    let k = choose("definitions", n + 1);
    let defs: Vec<WorldspawnLayer> = (0..k).map(|i| layer_def(i, LN[i], choose(&format!("def{}", i), 18))).collect();
    let kinds = [1, 0, 2];
    let shapes: Vec<Shape> = (0..3).map(|i| shape(TETRA, [i * 640, 8, 16], 64)).collect();
    let brushes: Vec<Vec<Face>> = (0..3).map(|i| shapes[i].faces(&liquid(kinds[i]))).collect();
    let mut c = Cfg::new().class("worldspawn", VisualType::Mesh, CollisionType::Convex);
    for t in LIQ {
        c = c.texture(t, 64, 64);
    }
    c.layers = defs.clone();
    let m = map_of("worldspawn", &brushes);
    if let Some(r) = scene(&m, c) {
        expect_layers(&r, &shapes, &kinds, [true, true], &defs, 0);
    }
}
pub fn h_c11_definitions() {
    layer_defs(2);
}
pub fn h_c11_definitions_deep() {
    layer_defs(3);
}
/// other entities keep their liquid brushes; blacklists do not touch layers
pub fn h_c11_others() {
    let s: Vec<Shape> = (0..2).map(|i| shape([BOX, TETRA][i], [i as i64 * 640, 8, 16], 64)).collect();
    let k = [choose("k0", 5), choose("k1", 5)];
    let mut m = Map::new();
    let mut c = Cfg::new().class("worldspawn", VisualType::Mesh, CollisionType::Convex).class("func_water", VisualType::Mesh, CollisionType::Convex);
    let first = flag("first");
    let layer = flag("layer");
    let ws = |m: &mut Map| {
        m.class("worldspawn");
        if layer {
            m.brush(&s[1].faces(&liquid(0)));
        }
        m.close();
    };
    if first {
        ws(&mut m);
    }
    m.class("func_water");
    for i in 0..2 {
        m.brush(&s[i].faces(&liquid(k[i])));
    }
    m.close();
    if !first {
        ws(&mut m);
    }
    for t in LIQ {
        c = c.texture(t, 64, 64);
    }
    c.layers = vec![layer_def(0, "la", 9), layer_def(1, "lb", 10)];
    if let Some(r) = scene(&m, c) {
        check(r.len() == 2 + layer as usize, "no layer for brushes of other entities");
        if r.len() == 2 + layer as usize {
            let n = &r[r.len() - 1];
            check(name(n) == "func_water", "the layer follows worldspawn");
            convex_is(n, &[&s[0], &s[1]]);
            let l: Vec<(&Shape, Vec<&str>)> = (0..2).map(|i| (&s[i], liquid(k[i]))).collect();
            expect_surfaces(n, &l, &LIQ, &[], &[], true);
            reach("end");
        }
    }
}
/// the liquids' names, letter by letter
pub fn h_c11_names() {
    hash_mode(1);
    let l = choose("liquid", 2);
    let pos = choose("letter", 8);
    let ch = un("ch", 8, 33, 126) as u8;
    // the place of a letter, or one more at the end
    let name = |c: u8| -> Vec<u8> {
        let mut b = LIQ[l].as_bytes().to_vec();
        if pos < 7 {
            b[pos] = c;
        } else {
            b.push(c);
        }
        b
    };
    let tex = name(ch);
    // lower-cased by the reader
    let up = (ch >= 65) & (ch <= 90);
    let low = ite(up, ch as u64 + 32, ch as u64) as u8;
    assume(ch != b'(' && ch != b')' && ch != b'{' && ch != b'}' && ch != b'"' && ch != b'[' && ch != b']' && ch != b'/');
    let lowname = name(low);
    let s = shape(TETRA, [8, 16, 24], 64);
    let mut m = Map::new();
    m.class("worldspawn");
    m.open();
    for x in s.faces(&["@"]) {
        let mut t: Vec<u8> = Vec::new();
        for c in x.text().bytes() {
            if c == b'@' {
                t.extend_from_slice(&tex);
            } else {
                t.push(c);
            }
        }
        m.raw(&t);
    }
    m.close();
    m.close();
    let mut c = Cfg::new().texture(&crate::tree::string(&lowname), 64, 64).class("worldspawn", VisualType::None, CollisionType::Convex);
    let by_def = flag("by definition");
    let mut d = layer_def(0, "la", l + 6);
    if by_def {
        d.texture = crate::tree::string(&lowname);
    }
    c.layers = vec![d];
    let is = same(&lowname, LIQ[l].as_bytes());
    if let Some(r) = scene(&m, c) {
        check(r.len() == 1 + is as usize, "exactly the liquid's own name makes a layer");
        check(collision_nodes(&r[0]) == !is as usize, "any other brush stays with worldspawn");
        if is {
            reach("layer");
        } else {
            reach("no layer");
        }
    }
}
