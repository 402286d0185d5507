//! Building maps and configurations, converting them, looking at scenes.
use crate::prelude::*;
pub use quarchitect::game_data::forge;
pub use quarchitect::game_data::{
    CollisionType, ComponentType, Entity as Def, EntityType, GameData, Properties, Property, PropertyApplicationType, VisualType,
    WorldspawnLayer,
};
pub use quarchitect::scene_tree::{Actor, CollisionGeometry, MeshSurface, SceneTreeNode, SceneTreeType, VisualGeometry};
pub use quarchitect::{Color, Config, Texture, TextureBlacklist, TextureInfo, Vector2, Vector3};
use std::collections::HashMap;

pub type V = [f32; 3];

/// map text under construction
pub struct Map {
    pub lines: Vec<Vec<u8>>,
}
impl Map {
    pub fn new() -> Map {
        Map { lines: Vec::new() }
    }
    pub fn line(&mut self, s: &str) {
        self.lines.push(s.as_bytes().to_vec());
    }
    pub fn raw(&mut self, s: &[u8]) {
        self.lines.push(s.to_vec());
    }
    pub fn open(&mut self) {
        self.line("{");
    }
    pub fn close(&mut self) {
        self.line("}");
    }
    pub fn prop(&mut self, k: &str, v: &str) {
        let mut s = String::from("\"");
        s.push_str(k);
        s.push_str("\" \"");
        s.push_str(v);
        s.push('"');
        self.line(&s);
    }
    pub fn class(&mut self, name: &str) {
        self.open();
        self.prop("classname", name);
    }
    pub fn brush(&mut self, faces: &[Face]) {
        self.open();
        for f in faces {
            self.line(&f.text());
        }
        self.close();
    }
    pub fn bytes(&self) -> Vec<u8> {
        self.ending(b"\n", true)
    }
    pub fn ending(&self, eol: &[u8], last: bool) -> Vec<u8> {
        let mut out = Vec::new();
        for (i, l) in self.lines.iter().enumerate() {
            out.extend_from_slice(l);
            if last || i + 1 < self.lines.len() {
                out.extend_from_slice(eol);
            }
        }
        out
    }
}

#[derive(Clone)]
pub enum Uv {
    Std(f32, f32),
    Valve([f32; 4], [f32; 4]),
}
#[derive(Clone)]
pub struct Face {
    pub p: [V; 3],
    pub tex: String,
    pub uv: Uv,
    pub rot: f32,
    pub scale: [f32; 2],
    pub extra: Vec<String>,
}
fn push(s: &mut String, t: &str) {
    if !s.is_empty() {
        s.push(' ');
    }
    s.push_str(t);
}
impl Face {
    pub fn new(p: [V; 3], tex: &str) -> Face {
        Face { p, tex: tex.to_string(), uv: Uv::Std(0.0, 0.0), rot: 0.0, scale: [1.0, 1.0], extra: Vec::new() }
    }
    pub fn tokens(&self) -> Vec<String> {
        let mut v: Vec<String> = Vec::new();
        for p in &self.p {
            v.push("(".into());
            for c in p {
                v.push(ft(*c));
            }
            v.push(")".into());
        }
        v.push(self.tex.clone());
        match &self.uv {
            Uv::Std(a, b) => {
                v.push(ft(*a));
                v.push(ft(*b));
            }
            Uv::Valve(a, b) => {
                for x in [a, b] {
                    v.push("[".into());
                    for c in x {
                        v.push(ft(*c));
                    }
                    v.push("]".into());
                }
            }
        }
        v.push(ft(self.rot));
        v.push(ft(self.scale[0]));
        v.push(ft(self.scale[1]));
        v.extend(self.extra.iter().cloned());
        v
    }
    pub fn text(&self) -> String {
        let mut s = String::new();
        for t in self.tokens() {
            push(&mut s, &t);
        }
        s
    }
    pub fn uv(mut self, u: f32, v: f32) -> Face {
        self.uv = Uv::Std(u, v);
        self
    }
    pub fn color(mut self, c: V) -> Face {
        self.extra = vec!["0".into(), "0".into(), "0".into(), ft(c[0]), ft(c[1]), ft(c[2])];
        self
    }
}
/// three points of the plane `axis = d` whose outside is towards +axis (or
/// -axis)
pub fn axis_points(axis: usize, neg: bool, d: f32) -> [V; 3] {
    let mut p = [[0.0; 3]; 3];
    for q in p.iter_mut() {
        q[axis] = d;
    }
    // (v2-v0) x (v1-v0) = +axis
    let a1 = (axis + 1) % 3;
    let a2 = (axis + 2) % 3;
    let (i, j) = if neg { (2, 1) } else { (1, 2) };
    p[i][a2] = 1.0;
    p[j][a1] = 1.0;
    p
}
pub fn axis_face(axis: usize, neg: bool, d: f32, tex: &str) -> Face {
    Face::new(axis_points(axis, neg, d), tex)
}
/// the three positive faces of a box: each has the single vertex (x,y,z)
pub fn corner(v: V, tex: &str) -> Vec<Face> {
    (0..3).map(|a| axis_face(a, false, v[a], tex)).collect()
}
/// a closed box; faces +x +y +z -x -y -z
pub fn cuboid(lo: V, hi: V, tex: &str) -> Vec<Face> {
    let mut f: Vec<Face> = (0..3).map(|a| axis_face(a, false, hi[a], tex)).collect();
    f.extend((0..3).map(|a| axis_face(a, true, lo[a], tex)));
    f
}

pub struct Cfg {
    pub textures: Vec<(String, u32, u32)>,
    pub bl_brush: Vec<String>,
    pub bl_plane: Vec<String>,
    pub forge: Vec<forge::Entity>,
    pub defs: Vec<Def>,
    pub layers: Vec<WorldspawnLayer>,
}
impl Cfg {
    pub fn new() -> Cfg {
        Cfg { textures: Vec::new(), bl_brush: Vec::new(), bl_plane: Vec::new(), forge: Vec::new(), defs: Vec::new(), layers: Vec::new() }
    }
    pub fn texture(mut self, name: &str, w: u32, h: u32) -> Cfg {
        self.textures.push((name.to_string(), w, h));
        self
    }
    pub fn class(mut self, name: &str, vis: VisualType, col: CollisionType) -> Cfg {
        self.defs.push(brush_def(name, vis, col));
        self
    }
    pub fn props(mut self, class: &str, props: Vec<forge::Property>) -> Cfg {
        self.forge.push(forge::Entity::new(forge::ClassType::PointClass, vec![], class, "", props));
        self
    }
    pub fn config(self, file: &str) -> Config {
        let mut info = HashMap::new();
        for (n, w, h) in self.textures {
            info.insert(n, Texture::new(w, h));
        }
        Config::new(
            file,
            TextureInfo(info),
            TextureBlacklist::new(self.bl_brush, self.bl_plane),
            forge::GameData::new("game".to_string(), vec![], self.forge),
            GameData { entities: self.defs, worldspawn_layers: self.layers },
        )
    }
}
pub fn brush_def(name: &str, vis: VisualType, col: CollisionType) -> Def {
    Def::brush(
        name.to_string(),
        EntityType::Placeholder,
        ComponentType::None,
        PropertyApplicationType::Properties,
        Properties::default(),
        vis,
        col,
    )
}
pub fn sprop(name: &str, default: &str) -> forge::Property {
    forge::Property::new(name, "", "", forge::PropertyData::String(default.to_string()))
}

pub fn convert_bytes(data: &[u8], cfg: Cfg) -> Result<Vec<SceneTreeNode>, String> {
    let p = put("m.map", data);
    quarchitect::run(cfg.config(&p)).map_err(|e| e.to_string())
}
pub fn convert(m: &Map, cfg: Cfg) -> Result<Vec<SceneTreeNode>, String> {
    convert_bytes(&m.bytes(), cfg)
}
/// the scene, or a failed check
pub fn scene(m: &Map, cfg: Cfg) -> Option<Vec<SceneTreeNode>> {
    let r = convert(m, cfg);
    check(r.is_ok(), "a well-formed map is converted");
    r.ok()
}

pub fn actor(n: &SceneTreeNode) -> Option<(&Actor, &Vec<SceneTreeNode>)> {
    match &n.data {
        SceneTreeType::Actor(a, c) => Some((a, c)),
        _ => None,
    }
}
pub fn children(n: &SceneTreeNode) -> &[SceneTreeNode] {
    match &n.data {
        SceneTreeType::Actor(_, c) => c,
        _ => &[],
    }
}
pub fn name(n: &SceneTreeNode) -> &str {
    match &n.data {
        SceneTreeType::Actor(a, _) => &a.name,
        _ => "",
    }
}
pub fn surfaces(n: &SceneTreeNode) -> &[MeshSurface] {
    for c in children(n) {
        if let SceneTreeType::VisualGeometry(VisualGeometry::Mesh(m)) = &c.data {
            return &m.surfaces;
        }
    }
    &[]
}
pub fn visual_nodes(n: &SceneTreeNode) -> usize {
    children(n).iter().filter(|c| matches!(c.data, SceneTreeType::VisualGeometry(_))).count()
}
pub fn collision_nodes(n: &SceneTreeNode) -> usize {
    children(n).iter().filter(|c| matches!(c.data, SceneTreeType::CollisionGeometry(_))).count()
}
/// (centre, points) of the convex shapes
pub fn convex(n: &SceneTreeNode) -> Vec<(V, Vec<V>)> {
    for c in children(n) {
        if let SceneTreeType::CollisionGeometry(CollisionGeometry::Convex(s)) = &c.data {
            return s.iter().map(|s| (v3(s.center), s.points.iter().map(|p| v3(*p)).collect())).collect();
        }
    }
    Vec::new()
}
/// (centre, points, indices) of the concave shapes
pub fn concave(n: &SceneTreeNode) -> Vec<(V, Vec<V>, Vec<usize>)> {
    for c in children(n) {
        if let SceneTreeType::CollisionGeometry(CollisionGeometry::Concave(s)) = &c.data {
            return s.iter().map(|s| (v3(s.center), s.vertices.iter().map(|p| v3(*p)).collect(), s.indices.clone())).collect();
        }
    }
    Vec::new()
}
pub fn prop<'a>(n: &'a SceneTreeNode, key: &str) -> Option<&'a Property> {
    match &n.data {
        SceneTreeType::Actor(a, _) => a.properties.0.get(key),
        _ => None,
    }
}
pub fn text_prop<'a>(n: &'a SceneTreeNode, key: &str) -> Option<&'a str> {
    match prop(n, key) {
        Some(Property::String(s)) => Some(s),
        _ => None,
    }
}
pub fn v3(v: Vector3) -> V {
    [v.x(), v.y(), v.z()]
}
pub fn v2(v: Vector2) -> [f32; 2] {
    [v.x(), v.y()]
}
/// componentwise nearness without branching
pub fn close(a: V, b: V, eps: f32) -> bool {
    near(a[0], b[0], eps) & near(a[1], b[1], eps) & near(a[2], b[2], eps)
}
/// equality without branching
pub fn same(a: &[u8], b: &[u8]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let mut ok = true;
    for i in 0..a.len() {
        ok &= a[i] == b[i];
    }
    ok
}
pub fn obs_v(name: &str, v: V) {
    for c in v {
        obs_f(name, c + 0.0);
    }
}
/// everything that is cheap to see of a scene
pub fn obs_scene(nodes: &[SceneTreeNode]) {
    for n in nodes {
        obs_v("origin", v3(n.origin));
        match &n.data {
            SceneTreeType::Actor(a, c) => {
                obs_s("name", &a.name);
                obs("properties", a.properties.0.len() as u64);
                obs("children", c.len() as u64);
                obs_scene(c);
            }
            SceneTreeType::VisualGeometry(VisualGeometry::Mesh(m)) => {
                for s in &m.surfaces {
                    obs("vertices", s.vertices.len() as u64);
                    for v in &s.vertices {
                        obs_v("vertex", v3(*v));
                    }
                    for i in &s.indices {
                        obs("index", *i as u64);
                    }
                }
            }
            SceneTreeType::CollisionGeometry(CollisionGeometry::Convex(v)) => {
                for s in v {
                    obs_v("centre", v3(s.center));
                    for p in &s.points {
                        obs_v("point", v3(*p));
                    }
                }
            }
            SceneTreeType::CollisionGeometry(CollisionGeometry::Concave(v)) => {
                for s in v {
                    obs_v("centre", v3(s.center));
                    for p in &s.vertices {
                        obs_v("point", v3(*p));
                    }
                }
            }
            _ => obs("nothing", 0),
        }
    }
}
