//! C20 and C29: the same conversion again, and defaults read back.
use crate::prelude::*;
use crate::scene::*;
use crate::tree::{fprop, letters, propb, string};
use quarchitect::game_data::forge::PropertyData;

// ---- C20

fn same_v(a: Vector3, b: Vector3) -> bool {
    (a.x() == b.x()) & (a.y() == b.y()) & (a.z() == b.z())
}
fn all<T>(a: &[T], b: &[T], f: impl Fn(&T, &T) -> bool) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let mut ok = true;
    for i in 0..a.len() {
        ok &= f(&a[i], &b[i]);
    }
    ok
}
fn same_color(a: &Color, b: &Color) -> bool {
    (a.r == b.r) & (a.g == b.g) & (a.b == b.b)
}
fn same_property(a: &Property, b: &Property) -> bool {
    match (a, b) {
        (Property::Integer(a), Property::Integer(b)) => a == b,
        (Property::Float(a), Property::Float(b)) => a == b,
        (Property::Vector3(a), Property::Vector3(b)) => same_v(*a, *b),
        (Property::String(a), Property::String(b)) => same(a.as_bytes(), b.as_bytes()),
        (Property::Color(a), Property::Color(b)) => same_color(a, b),
        (Property::Choices(a), Property::Choices(b)) => a == b,
        (Property::Flags(a), Property::Flags(b)) => a == b,
        (Property::TargetSource, Property::TargetSource) => true,
        (Property::TargetDestination, Property::TargetDestination) => true,
        _ => false,
    }
}
fn same_type(a: &EntityType, b: &EntityType) -> bool {
    match (a, b) {
        (EntityType::Placeholder, EntityType::Placeholder) => true,
        (EntityType::Class(a), EntityType::Class(b)) | (EntityType::Prefab(a), EntityType::Prefab(b)) => a == b,
        _ => false,
    }
}
/// as tables, which may be in another order
fn same_properties(a: &Properties, b: &Properties) -> bool {
    if a.0.len() != b.0.len() {
        return false;
    }
    let mut ok = true;
    for (k, v) in a.0.iter() {
        match b.0.iter().find(|x| x.0 == k) {
            Some((_, w)) => ok &= same_property(v, w),
            None => return false,
        }
    }
    ok
}
fn same_surface(a: &MeshSurface, b: &MeshSurface) -> bool {
    if a.texture != b.texture || a.indices != b.indices || a.uvs.is_some() != b.uvs.is_some() || a.colors.is_some() != b.colors.is_some() {
        return false;
    }
    let mut ok = all(&a.vertices, &b.vertices, |a, b| same_v(*a, *b))
        & all(&a.normals, &b.normals, |a, b| same_v(*a, *b))
        & all(&a.tangents, &b.tangents, |a, b| same_v(a.0, b.0) & (a.1 == b.1));
    if let (Some(a), Some(b)) = (&a.uvs, &b.uvs) {
        ok &= all(a, b, |a, b| (a.x() == b.x()) & (a.y() == b.y()));
    }
    if let (Some(a), Some(b)) = (&a.colors, &b.colors) {
        ok &= all(a, b, same_color);
    }
    ok
}
fn same_node(a: &SceneTreeNode, b: &SceneTreeNode) {
    check(same_v(a.origin, b.origin), "the same position again");
    match (&a.data, &b.data) {
        (SceneTreeType::Actor(x, c), SceneTreeType::Actor(y, d)) => {
            check(x.name == y.name, "the same order of actors again");
            check(
                same_type(&x.entity_type, &y.entity_type)
                    && x.component_class == y.component_class
                    && std::mem::discriminant(&x.property_application_type) == std::mem::discriminant(&y.property_application_type),
                "the same kind of actor again",
            );
            check(same_properties(&x.properties, &y.properties), "the same properties again");
            same_nodes(c, d);
        }
        (SceneTreeType::VisualGeometry(x), SceneTreeType::VisualGeometry(y)) => {
            let ok = match (x, y) {
                (VisualGeometry::Mesh(x), VisualGeometry::Mesh(y)) => all(&x.surfaces, &y.surfaces, same_surface),
                (VisualGeometry::None, VisualGeometry::None) => true,
                _ => false,
            };
            check(ok, "the same mesh again");
        }
        (SceneTreeType::CollisionGeometry(x), SceneTreeType::CollisionGeometry(y)) => {
            let ok = match (x, y) {
                (CollisionGeometry::Convex(x), CollisionGeometry::Convex(y)) => {
                    all(x, y, |a, b| same_v(a.center, b.center) & all(&a.points, &b.points, |a, b| same_v(*a, *b)))
                }
                (CollisionGeometry::Concave(x), CollisionGeometry::Concave(y)) => all(x, y, |a, b| {
                    same_v(a.center, b.center) & all(&a.vertices, &b.vertices, |a, b| same_v(*a, *b)) & (a.indices == b.indices)
                }),
                (CollisionGeometry::None, CollisionGeometry::None) => true,
                _ => false,
            };
            check(ok, "the same collision again");
        }
        _ => check(false, "the same kinds of nodes again"),
    }
}
fn same_nodes(a: &[SceneTreeNode], b: &[SceneTreeNode]) {
    check(a.len() == b.len(), "the same nodes again");
    for (a, b) in a.iter().zip(b.iter()) {
        same_node(a, b);
    }
}
const TEX: [&str; 4] = ["*slime0", "wall", "*water0", "floor"];
/// a map with something in every table
fn town(x: f32, variant: usize) -> Map {
    let mut m = Map::new();
    m.class("lamp");
    m.prop("_tb_id", "7");
    m.prop("red", "1");
    m.prop("green", "2 3 4");
    m.prop("origin", &[ft(x), "8".into(), "16".into()].join(" "));
    m.close();
    m.open();
    m.prop("_phong", if variant == 1 { "0" } else { "1" });
    m.prop("blue", "text");
    m.prop("classname", "worldspawn");
    m.prop("_phong_angle", "95");
    for i in 0..4 {
        let lo = 64.0 * i as f32 + x;
        let mut b = cuboid([lo, 0.0, 0.0], [lo + 8.0, 8.0, 8.0], TEX[(i + variant) % 4]);
        if i == 1 {
            b[2].tex = "floor".into();
            b[3].tex = "nowhere".into();
        }
        m.brush(&b);
    }
    m.close();
    m.class("func_wall");
    m.prop("_tb_group", "7");
    m.prop("blue", if variant == 2 { "other" } else { "any" });
    m.brush(&cuboid([0.0, x, 0.0], [8.0, x + 8.0, 8.0], "wall"));
    m.close();
    m.class("lamp");
    m.prop("red", "5");
    m.close();
    m
}
fn town_cfg(which: usize) -> Cfg {
    let mut c = Cfg::new();
    for (i, t) in TEX.iter().enumerate() {
        c = c.texture(t, 16 << i, 64);
    }
    let kinds = [CollisionType::Convex, CollisionType::Concave];
    c = c
        .class("worldspawn", VisualType::Mesh, kinds[which % 2])
        .class("func_wall", VisualType::Mesh, kinds[(which + 1) % 2])
        .props(
            "lamp",
            vec![
                fprop("red", PropertyData::Integer(1)),
                fprop("green", PropertyData::Vector3(Vector3::new(0.0, 0.0, 1.0))),
                fprop("blue", PropertyData::String("none".into())),
                fprop("white", PropertyData::Color(Color::new(1.0, 0.5, 0.0))),
            ],
        )
        .props("worldspawn", vec![fprop("blue", PropertyData::String("none".into())), fprop("red", PropertyData::Float(0.5))])
        .props("func_wall", vec![fprop("blue", PropertyData::String("none".into()))]);
    for (i, l) in ["lb", "la"].iter().enumerate() {
        c.layers.push(WorldspawnLayer::new(
            l.to_string(),
            TEX[[2, 0][(i + which) % 2]].into(),
            EntityType::class("Layer"),
            ComponentType::None,
            VisualType::Mesh,
            CollisionType::Concave,
        ));
    }
    c
}
fn again(modes: usize) {
    let x = grid("x", -8192, 8192, 3);
    let which = choose("which", 2);
    hash_mode(2);
    let a = match scene(&town(x, 0), town_cfg(which)) {
        Some(a) => a,
        None => return,
    };
    hash_mode(2 + choose("order", modes) as u64);
    let b = match scene(&town(x, 0), town_cfg(which)) {
        Some(b) => b,
        None => return,
    };
    check(a.len() == 5, "everything of the map is there");
    same_nodes(&a, &b);
    reach("end");
}
/// two orders of iteration
pub fn h_c20_orders() {
    again(24);
}
pub fn h_c20_orders_deep() {
    again(48);
}
/// other conversions in between, also of other text in the same file
pub fn h_c20_history() {
    let x = grid("x", -8192, 8192, 3);
    let v = choose("between", 4);
    let w = choose("config", 2);
    let a = match scene(&town(x, 0), town_cfg(0)) {
        Some(a) => a,
        None => return,
    };
    let other = |name: &str| {
        let p = put(name, &town(if v == 3 { 64.0 } else { x }, v).bytes());
        quarchitect::run(town_cfg(w).config(&p))
    };
    // fresh file, then the one seen before
    let (c, d) = (other("other.map"), other("m.map"));
    let e = quarchitect::run(town_cfg(0).config(&path("nothing.map")));
    check(e.is_err(), "a missing map is refused again");
    let b = scene(&town(x, 0), town_cfg(0));
    match (c, d, b) {
        (Ok(c), Ok(d), Some(b)) => {
            same_nodes(&c, &d);
            same_nodes(&a, &b);
            reach("end");
        }
        _ => check(false, "a well-formed map is converted"),
    }
}

// ---- C29

/// what the definition states between `head` and the description
fn stated<'a>(s: &'a str, ty: &str) -> Option<&'a str> {
    let head = ["key(", ty, ") : \"\" : "].concat();
    let t = s.strip_prefix(head.as_str())?.strip_suffix(" : \"\"")?;
    if ty == "integer" || ty == "float" {
        return Some(t);
    }
    t.strip_prefix('"')?.strip_suffix('"')
}
/// the bits the definition marks, as the editor adds them up
fn marked(s: &str) -> Option<i64> {
    let body = s.strip_prefix("key(flags) =\n\t[\n")?.strip_suffix("\t]")?;
    let mut sum = 0i64;
    for l in body.split('\n') {
        if l.is_empty() {
            continue;
        }
        let p: Vec<&str> = l.trim().split(" : ").collect();
        if p.len() != 3 {
            return None;
        }
        let bit: i64 = p[0].parse().ok()?;
        let on: i64 = p[2].parse().ok()?;
        check((on == 0) | (on == 1), "a flag is marked or not");
        sum += on * bit;
    }
    Some(sum)
}
fn read_back(d: PropertyData, text: &[u8]) -> Option<(Property, Property)> {
    let convert = |with: bool| {
        let mut m = Map::new();
        m.class("worldspawn");
        m.close();
        m.class("thing");
        if with {
            propb(&mut m, "key", text);
        }
        m.close();
        let s = scene(&m, Cfg::new().props("thing", vec![fprop("key", d.clone())]))?;
        prop(s.last()?, "key").cloned()
    };
    let r = (convert(true), convert(false));
    check(r.0.is_some() && r.1.is_some(), "the property is there");
    Some((r.0?, r.1?))
}
pub fn h_c29_defaults() {
    hash_mode(1);
    let kind = choose("kind", 5);
    let any = |n: &str| fl(n, -1.0e30, 1.0e30);
    let d = match kind {
        0 => PropertyData::Integer(int("i", 32, i32::MIN as i64, i32::MAX as i64) as i32),
        1 => PropertyData::Float(any("f")),
        2 => PropertyData::Vector3(Vector3::new(any("x"), any("y"), any("z"))),
        3 => PropertyData::String(string(&letters("s", choose("length", 4)))),
        _ => PropertyData::Color(Color::new(fl("r", -4.0, 4.0), fl("g", -4.0, 4.0), fl("b", -4.0, 4.0))),
    };
    back(kind, d);
}
fn back(kind: usize, d: PropertyData) {
    let ty = ["integer", "float", "string", "string", "color255"][kind];
    let s = fprop("key", d.clone()).to_string();
    let text = match stated(&s, ty) {
        Some(t) => t.as_bytes().to_vec(),
        None => {
            check(false, "the definition states a default");
            return;
        }
    };
    if let Some((a, b)) = read_back(d, &text) {
        match (&a, &b) {
            (Property::Color(a), Property::Color(b)) => {
                let e = 1.0 / 255.0 + 1.0e-5;
                check(near(a.r, b.r, e) & near(a.g, b.g, e) & near(a.b, b.b, e), "the stated colour is the default within a step");
                reach("color");
            }
            _ => {
                check(same_property(&a, &b), "the stated default is the default");
                reach(["integer", "float", "vector", "string"][kind % 4]);
            }
        }
    }
}
/// defaults with few marked bits and all masks
fn flags(n: usize) {
    hash_mode(1);
    let n = choose("flags", n + 1);
    let mask = un("mask", 32, 0, (1u64 << n) - 1);
    let names: Vec<String> = (0..n).map(|i| format!("f{}", i)).collect();
    let d = PropertyData::Flags(names, mask as i32);
    let s = fprop("key", d.clone()).to_string();
    match marked(&s) {
        Some(sum) => {
            if let Some((a, b)) = read_back(d, it(sum).as_bytes()) {
                check(same_property(&a, &b), "the marked flags are the default");
                reach("end");
            }
        }
        None => check(false, "the definition states its flags"),
    }
}
pub fn h_c29_flags() {
    flags(5);
}
pub fn h_c29_flags_deep() {
    flags(8);
}
/// all 31 flags, one or all but one marked
pub fn h_c29_flags_many() {
    let i = choose("bit", 32);
    let rest = flag("rest");
    let all = 0x7fff_ffffu32;
    let one = if i < 31 { 1 << i } else { 0 };
    let mask = if rest { all ^ one } else { one };
    let names: Vec<String> = (0..31).map(|i| format!("f{}", i)).collect();
    let d = PropertyData::Flags(names, mask as i32);
    let s = fprop("key", d.clone()).to_string();
    match marked(&s) {
        Some(sum) => {
            if let Some((a, b)) = read_back(d, sum.to_string().as_bytes()) {
                check(same_property(&a, &b), "the marked flags are the default");
                reach("end");
            }
        }
        None => check(false, "the definition states its flags"),
    }
}
/// delicate numbers, printed and read by the real code
pub fn h_c29_numbers() {
    let f = [0.0f32, -0.0, 0.1, -1.5, 1.0e-7, 1.0e-45, 3.4028235e38, 16777216.0, 1.0e10, 0.33333334, 123456.79, 1.1754944e-38];
    let k = choose("number", 12);
    let i = [0, -1, 1, i32::MAX, i32::MIN, 10, 1000000, -65536, 7, 255, 256, 99][k];
    match choose("kind", 4) {
        0 => back(0, PropertyData::Integer(i)),
        1 => back(1, PropertyData::Float(f[k])),
        2 => back(2, PropertyData::Vector3(Vector3::new(f[k], f[(k + 1) % 12], f[(k + 5) % 12]))),
        _ => {
            let c = k as f32 / 11.0;
            let far = [0.0, -1.5, 3.9, -0.25][choose("far", 4)];
            let v = [c + far, 1.0 - c, 1.0 / 255.0 * k as f32 - far * far];
            back(4, PropertyData::Color(Color::new(v[k % 3], v[(k + 1) % 3], v[(k + 2) % 3])))
        }
    }
}
/// texts with delicate characters
pub fn h_c29_texts() {
    let t = ["", " ", "  a  b ", "//", "a // b", "{", "}", "( 1 2 3 )", "a\\nb", "1", "-1.5", "[ 0 ]", ":", "a : b", "'"][choose("text", 15)];
    back(3, PropertyData::String(t.into()));
}
