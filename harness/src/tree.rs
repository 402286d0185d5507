//! C11-C13, C18-C20, C29: the tree of actors and their properties.
use crate::prelude::*;
use crate::scene::*;
use quarchitect::game_data::forge::PropertyData;

/// `n` arbitrary characters of a property value
pub fn letters(name: &str, n: usize) -> Vec<u8> {
    (0..n).map(|_| un(name, 8, 35, 126) as u8).collect()
}
pub fn string(b: &[u8]) -> String {
    unsafe { String::from_utf8_unchecked(b.to_vec()) }
}
/// a property whose value is any text
pub fn propb(m: &mut Map, k: &str, v: &[u8]) {
    let mut s: Vec<u8> = Vec::new();
    s.push(b'"');
    s.extend_from_slice(k.as_bytes());
    s.extend_from_slice(b"\" \"");
    s.extend_from_slice(v);
    s.push(b'"');
    m.raw(&s);
}
pub fn is_actor(n: &SceneTreeNode) -> bool {
    actor(n).is_some()
}

// ---- C12

struct Ent {
    id: Option<Vec<u8>>,
    group: Option<Vec<u8>>,
}
/// index of the entity whose id is the group's; outside the domain unless
/// there is exactly one
fn parents(e: &[Ent]) -> Vec<Option<usize>> {
    let mut r = Vec::new();
    for x in e {
        r.push(match &x.group {
            None => None,
            Some(g) => {
                let mut p = None;
                for (i, y) in e.iter().enumerate() {
                    if let Some(id) = &y.id {
                        if same(id, g) {
                            assume(p.is_none());
                            p = Some(i);
                        }
                    }
                }
                assume(p.is_some());
                p
            }
        });
    }
    // worldspawn's own group does not count
    r[0] = None;
    for i in 0..e.len() {
        let mut x = i;
        for _ in 0..e.len() {
            if let Some(p) = r[x] {
                x = p;
            } else {
                break;
            }
        }
        assume(r[x].is_none());
    }
    r
}
const EN: [&str; 6] = ["worldspawn", "e1", "e2", "e3", "e4", "e5"];

fn expect_children(kids: &[SceneTreeNode], par: &[Option<usize>], me: usize) {
    let want: Vec<usize> = (0..par.len()).filter(|i| par[*i] == Some(me)).collect();
    let mut geometry = true;
    let mut got = Vec::new();
    for k in kids {
        if is_actor(k) {
            geometry = false;
            got.push(k);
        } else {
            check(geometry, "an entity's own geometry comes before its children");
        }
    }
    check(got.len() == want.len(), "exactly the entities of the group are children");
    for (g, w) in got.iter().zip(want.iter()) {
        check(name(g) == EN[*w], "the children stand in map order");
        expect_children(children(g), par, *w);
    }
}
fn hierarchy(n: usize, long: bool) {
    hash_mode(1);
    let mut e = Vec::new();
    for i in 0..=n {
        let has = |what: &str| -> Option<Vec<u8>> {
            match choose(&format!("{}{}", what, i), if long && i == 1 { 3 } else { 2 }) {
                0 => None,
                k => Some(letters(&format!("{}text{}", what, i), k)),
            }
        };
        e.push(Ent { id: has("id"), group: if i == 0 { None } else { has("group") } });
    }
    let par = parents(&e);
    let first = choose("worldspawn", 2) * (n - 1);
    let mut m = Map::new();
    let solid = true;
    let write = |m: &mut Map, i: usize| {
        m.class(EN[i]);
        if let Some(g) = &e[i].group {
            propb(m, "_tb_group", g);
        }
        if let Some(id) = &e[i].id {
            propb(m, "_tb_id", id);
        }
        if solid && i < 2 {
            m.brush(&cuboid([0.0; 3], [8.0, 8.0, 8.0], "wall"));
        }
        m.close();
    };
    for i in 1..=n {
        if first == i - 1 {
            write(&mut m, 0);
        }
        write(&mut m, i);
    }
    if first == n {
        write(&mut m, 0);
    }
    let c = Cfg::new().class("worldspawn", VisualType::Mesh, CollisionType::Concave).class("e1", VisualType::Mesh, CollisionType::Convex);
    if let Some(s) = scene(&m, c) {
        let want: Vec<usize> = (0..=n).filter(|i| par[*i].is_none()).collect();
        check(s.len() == want.len(), "worldspawn and the entities without group are at the top");
        for (g, w) in s.iter().zip(want.iter()) {
            check(name(g) == EN[*w], "worldspawn comes first, the others in map order");
            check(visual_nodes(g) + collision_nodes(g) == if solid && *w < 2 { 2 } else { 0 }, "geometry stays with its entity");
            expect_children(children(g), &par, *w);
        }
        if want.len() + 1 < n {
            reach("grouped");
        }
        if par.iter().any(|p| p.map_or(false, |p| par[p].map_or(false, |q| par[q].is_some()))) {
            reach("nested");
        }
        if want.len() == n + 1 {
            reach("flat");
        }
    }
}
pub fn h_c12_groups() {
    hierarchy(3, true);
}
pub fn h_c12_four() {
    hierarchy(4, false);
}
/// the parent of each of `n` entities, worldspawn being the first
fn forest(kind: usize, n: usize) -> Vec<Option<usize>> {
    (0..n)
        .map(|i| match (i, kind) {
            (0, _) => None,
            // a line behind worldspawn, in map order and against it
            (i, 0) => Some(i - 1),
            (i, 1) => Some((i + 1) % n),
            // all in one group, or under worldspawn
            (i, 2) => if i == n / 2 { None } else { Some(n / 2) },
            (_, 3) => Some(0),
            (i, 4) => Some((i - 1) / 2),
            // several groups of several
            (i, 5) => if i % 4 == 1 { None } else { Some(i - (i + 3) % 4) },
            _ => if i % 3 == 0 && i + 2 < n { Some(i + 2) } else { None },
        })
        .collect()
}
/// names some of which begin like others
fn ident(kind: usize, i: usize) -> String {
    match kind {
        0 => format!("{}", i + 1),
        1 => "a".repeat(i + 1),
        2 => ["7", "07", "+7", "7.0", "70", "0x7", "7e0", "-7", "77", "7_", "_7", "1007"][i % 12].to_string(),
        3 => ["a", "A", " a", "a ", "aa", "\u{e1}", "a\t", "", "a b", "a  b", "a,b", "A "][i % 12].to_string(),
        _ => format!("{}", 4294967290u64 + 65536 * i as u64),
    }
}
fn expect_named(kids: &[SceneTreeNode], par: &[Option<usize>], order: &[usize], me: usize, nm: &dyn Fn(usize) -> String) {
    let want: Vec<usize> = order.iter().cloned().filter(|i| par[*i] == Some(me)).collect();
    let got: Vec<&SceneTreeNode> = kids.iter().filter(|k| is_actor(k)).collect();
    check(got.len() == want.len(), "exactly the entities of the group are children");
    for (g, w) in got.iter().zip(want.iter()) {
        check(name(g) == nm(*w), "the children stand in map order");
        expect_named(children(g), par, order, *w, nm);
    }
}
/// many entities
pub fn h_c12_many() {
    let n = 12;
    let par = forest(choose("forest", 7), n);
    let ids = choose("ids", 5);
    let turn = choose("turn", n);
    let step = [1, 5][choose("step", 2)];
    let order: Vec<usize> = (0..n).map(|i| (i * step + turn) % n).collect();
    // the same class may occur often
    let alike = flag("alike");
    let nm = |i: usize| if i == 0 { "worldspawn".to_string() } else if alike && i > 2 { "m".to_string() } else { format!("m{}", i) };
    let mut m = Map::new();
    for i in &order {
        m.class(&nm(*i));
        let mut pr = vec![("_tb_id", ident(ids, *i))];
        // worldspawn stays at the top, whatever it names
        if *i == 0 && turn % 2 == 1 {
            pr.push(("_tb_group", ident(ids, n - 1)));
        }
        if let Some(p) = par[*i] {
            pr.insert(i % 2, ("_tb_group", ident(ids, p)));
        }
        for (k, v) in &pr {
            m.prop(k, v);
        }
        m.close();
    }
    if let Some(s) = scene(&m, Cfg::new()) {
        let mut top: Vec<usize> = order.iter().cloned().filter(|i| par[*i].is_none() && *i != 0).collect();
        top.insert(0, 0);
        check(s.len() == top.len(), "worldspawn and the entities without group are at the top");
        for (g, w) in s.iter().zip(&top) {
            check(name(g) == nm(*w), "worldspawn comes first, the others in map order");
            expect_named(children(g), &par, &order, *w, &nm);
        }
        reach("end");
    }
}
/// worldspawn, then the layers, then the entities
pub fn h_c12_layers() {
    let n = choose("entities", 3);
    let grouped = flag("grouped");
    let water = flag("water");
    let slime = flag("slime");
    let first = choose("worldspawn", n + 1);
    let mut m = Map::new();
    let ws = |m: &mut Map| {
        m.class("worldspawn");
        m.prop("_tb_id", "1");
        m.brush(&cuboid([0.0; 3], [8.0, 8.0, 8.0], "wall"));
        if slime {
            m.brush(&cuboid([0.0; 3], [8.0, 8.0, 8.0], "*slime0"));
        }
        if water {
            m.brush(&cuboid([0.0; 3], [8.0, 8.0, 8.0], "*water0"));
        }
        m.close();
    };
    for i in 0..n {
        if first == i {
            ws(&mut m);
        }
        m.class(EN[i + 1]);
        if grouped && i == 0 {
            m.prop("_tb_group", "1");
        }
        m.close();
    }
    if first == n {
        ws(&mut m);
    }
    let mut c = Cfg::new().class("worldspawn", VisualType::Mesh, CollisionType::None).texture("*water0", 8, 8).texture("*slime0", 8, 8);
    let layer = |n: &str, t: &str| {
        WorldspawnLayer::new(n.to_string(), t.to_string(), EntityType::Placeholder, ComponentType::None, VisualType::Mesh, CollisionType::None)
    };
    c.layers = vec![layer("slime", "*slime0"), layer("water", "*water0")];
    if let Some(s) = scene(&m, c) {
        let k = water as usize + slime as usize;
        let top = if grouped && n > 0 { n - 1 } else { n };
        check(s.len() == 1 + k + top, "worldspawn, the layers and the entities without group");
        check(name(&s[0]) == "worldspawn", "worldspawn comes first");
        for i in 0..k.min(s.len() - 1) {
            check(name(&s[1 + i]) == "water" || name(&s[1 + i]) == "slime", "the layers follow worldspawn");
        }
        for i in 0..top {
            if 1 + k + i < s.len() {
                check(name(&s[1 + k + i]) == EN[1 + i + (n - top)], "the entities follow in map order");
            }
        }
        if k == 2 && n == 2 {
            reach("end");
        }
    }
}

// ---- C13

fn sub(a: V, b: V) -> V {
    [a[0] - b[0], a[1] - b[1], a[2] - b[2]]
}
fn equal(a: V, b: V) -> bool {
    (a[0] == b[0]) & (a[1] == b[1]) & (a[2] == b[2])
}
const IDS: [&str; 5] = ["1", "2", "3", "4", "5"];

fn placed(node: &SceneTreeNode, centre: &[V], par: &[Option<usize>], exact: f32) {
    let me = EN.iter().position(|x| *x == name(node));
    let me = match me {
        Some(i) => i,
        None => return,
    };
    let want = match par[me] {
        None => centre[me],
        Some(p) => sub(centre[me], centre[p]),
    };
    let o = v3(node.origin);
    check(close(o, want, exact), "an actor is placed at its centre, less its parent's centre if it has one");
    for c in children(node) {
        if is_actor(c) {
            placed(c, centre, par, exact);
        } else {
            check(close(v3(c.origin), centre[me], 0.01), "geometry nodes carry the entity's centre");
            reach("geometry");
        }
    }
}
/// any tree of three entities; every entity at an origin or around a brush
fn positions(n: usize, kind: usize) {
    let mut par: Vec<Option<usize>> = vec![None];
    for i in 1..=n {
        let p = choose(&format!("parent{}", i), n + 2);
        par.push(if p == n + 1 { None } else { Some(p) });
    }
    for i in 0..=n {
        let mut x = i;
        for _ in 0..=n {
            if let Some(p) = par[x] {
                x = p;
            }
        }
        assume(par[x].is_none());
    }
    let first = choose("worldspawn", 2);
    let mut m = Map::new();
    let mut centre: Vec<V> = vec![[0.0; 3]; n + 1];
    let mut seq: Vec<usize> = (1..=n).collect();
    seq.insert(first, 0);
    for i in seq {
        m.class(EN[i]);
        m.prop("_tb_id", IDS[i]);
        if let Some(p) = par[i] {
            m.prop("_tb_group", IDS[p]);
        }
        let g = |c: &str| {
            let nm = format!("{}{}", c, i);
            match kind {
                0 => grid(&nm, -4096 * 8, 4096 * 8, 3),
                _ => fl(&nm, -1.0e6, 1.0e6),
            }
        };
        let o = [g("x"), g("y"), g("z")];
        centre[i] = o;
        let text = [ft(o[0]), ft(o[1]), ft(o[2])].join(" ");
        if i % 2 == 1 || kind != 0 {
            m.prop("origin", &text);
            m.brush(&cuboid([0.0; 3], [16.0, 8.0, 32.0], "wall"));
        } else {
            // around the centre
            let h = [16.0, 8.0, 4.0];
            m.brush(&cuboid(sub(o, h), [o[0] + h[0], o[1] + h[1], o[2] + h[2]], "wall"));
        }
        m.close();
    }
    let c = Cfg::new()
        .class("worldspawn", VisualType::Mesh, CollisionType::Concave)
        .class("e1", VisualType::Mesh, CollisionType::Convex)
        .class("e2", VisualType::Mesh, CollisionType::None)
        .class("e3", VisualType::None, CollisionType::None);
    if let Some(s) = scene(&m, c) {
        for x in &s {
            placed(x, &centre, &par, if kind == 0 { 0.01 } else { 0.3 });
        }
        if par.iter().any(|p| p.map_or(false, |p| par[p].is_some())) {
            reach("nested");
        }
    }
}
pub fn h_c13_tree() {
    positions(3, 0);
}
pub fn h_c13_floats() {
    positions(2, 1);
}
/// many entities, deep nesting, any place along one axis
pub fn h_c13_many() {
    let n = 7;
    let par = forest(choose("forest", 7), n);
    let turn = choose("turn", n);
    let axis = choose("axis", 3);
    let mut centre = Vec::new();
    for i in 0..n {
        let mut o = [16.0 * i as f32, -8.0 * (i * i) as f32, 40.0];
        o[axis] = grid(&format!("c{}", i), -8192, 8192, 3);
        centre.push(o);
    }
    let mut m = Map::new();
    for k in 0..n {
        let i = (k + turn) % n;
        m.class(EM[i]);
        m.prop("_tb_id", &ident(0, i));
        if let Some(p) = par[i] {
            m.prop("_tb_group", &ident(0, p));
        }
        if i % 3 == 2 {
            let h = [16.0, 8.0, 4.0];
            let o = centre[i];
            m.brush(&cuboid(sub(o, h), [o[0] + h[0], o[1] + h[1], o[2] + h[2]], "wall"));
        } else {
            m.prop("origin", &f3(&centre[i]));
        }
        m.close();
    }
    let c = Cfg::new().class("e2", VisualType::Mesh, CollisionType::Concave).class("e5", VisualType::Mesh, CollisionType::Convex);
    if let Some(s) = scene(&m, c) {
        for x in &s {
            everywhere(x, &centre, &par);
        }
        reach("end");
    }
}
const EM: [&str; 7] = ["worldspawn", "e1", "e2", "e3", "e4", "e5", "e6"];
fn everywhere(node: &SceneTreeNode, centre: &[V], par: &[Option<usize>]) {
    let me = match EM.iter().position(|x| *x == name(node)) {
        Some(i) => i,
        None => return,
    };
    let want = match par[me] {
        None => centre[me],
        Some(p) => sub(centre[me], centre[p]),
    };
    check(close(v3(node.origin), want, 0.01), "an actor is placed at its centre, less its parent's centre if it has one");
    for c in children(node) {
        if is_actor(c) {
            everywhere(c, centre, par);
        } else {
            check(close(v3(c.origin), centre[me], 0.01), "geometry nodes carry the entity's centre");
        }
    }
}
pub fn h_c13_layers() {
    let t = [grid("x", -8192, 8192, 3), grid("y", -8192, 8192, 3), grid("z", -8192, 8192, 3)];
    let origin = flag("origin");
    let mut m = Map::new();
    m.class("worldspawn");
    if origin {
        m.prop("origin", &[ft(t[0]), ft(t[1]), ft(t[2])].join(" "));
    }
    m.brush(&cuboid(t, [t[0] + 8.0, t[1] + 8.0, t[2] + 8.0], "*water0"));
    // further brushes around it, which leave the mean where it is
    for d in [&[][..], &[16.0], &[16.0, 32.0]][choose("more", 3)] {
        for o in [-*d, *d] {
            m.brush(&cuboid([t[0] + o, t[1], t[2]], [t[0] + 8.0 + o, t[1] + 8.0, t[2] + 8.0], "*water0"));
        }
    }
    m.close();
    let mut c = Cfg::new().texture("*water0", 8, 8).class("worldspawn", VisualType::Mesh, CollisionType::Convex);
    c.layers = vec![WorldspawnLayer::new(
        "water".into(),
        "*water0".into(),
        EntityType::Placeholder,
        ComponentType::None,
        VisualType::Mesh,
        [CollisionType::Convex, CollisionType::Concave][choose("collision", 2)],
    )];
    if let Some(s) = scene(&m, c) {
        check(s.len() == 2, "worldspawn and the layer");
        if s.len() == 2 {
            let want = if origin { t } else { [t[0] + 4.0, t[1] + 4.0, t[2] + 4.0] };
            check(close(v3(s[0].origin), want, 0.01), "worldspawn is placed at its centre");
            check(equal(v3(s[1].origin), [0.0; 3]), "a layer is placed at the middle");
            check(children(&s[1]).len() == 2, "a layer has its geometry");
            for k in children(&s[1]) {
                check(equal(v3(k.origin), [0.0; 3]), "the geometry of a layer is placed at the middle");
                reach("end");
            }
        }
    }
}

// ---- C19

fn kind_of(e: &EntityType) -> (usize, &str) {
    match e {
        EntityType::Placeholder => (0, ""),
        EntityType::Class(s) => (1, s),
        EntityType::Prefab(s) => (2, s),
    }
}
fn app_of(p: &PropertyApplicationType) -> usize {
    match p {
        PropertyApplicationType::Properties => 0,
        PropertyApplicationType::Dictionary => 1,
        PropertyApplicationType::Metadata => 2,
    }
}
const PAY: [&str; 4] = ["Ka", "Kb", "Kc", "Kd"];
const SCR: [&str; 4] = ["Sa", "Sb", "Sc", "Sd"];

/// definitions with any names in any order
fn definitions(n: usize, len: usize, rich: bool) {
    hash_mode(1);
    let world = flag("world");
    let cls: Vec<u8> = if world { b"worldspawn".to_vec() } else { letters("class", len) };
    if !world && len == 10 {
        assume(!same(&cls, b"worldspawn"));
    }
    let mut c = Cfg::new();
    let mut defs = Vec::new();
    for i in 0..n {
        let name = if world {
            match choose(&format!("def{}", i), 2) {
                0 => b"worldspawn".to_vec(),
                _ => b"worldspawm".to_vec(),
            }
        } else {
            let k = if rich { len } else { len + choose(&format!("longer{}", i), 2) };
            letters(&format!("def{}", i), k)
        };
        // kinds: entity, script, application, visual, collision, point
        let k = if rich && i == 0 {
            [
                choose(&format!("entity{}", i), 3),
                choose(&format!("script{}", i), 2),
                choose(&format!("application{}", i), 3),
                choose(&format!("visual{}", i), 2),
                choose(&format!("collision{}", i), 3),
                choose(&format!("point{}", i), 2),
            ]
        } else {
            [[0, 1, 1, 1, 1, 0], [1, 0, 0, 0, 2, 0], [2, 1, 2, 1, 0, 1], [1, 1, 0, 1, 2, 0]][(i + choose(&format!("kind{}", i), 3)) % 4]
        };
        let et = match k[0] {
            0 => EntityType::Placeholder,
            1 => EntityType::class(PAY[i]),
            _ => EntityType::prefab(PAY[i]),
        };
        let ct = if k[1] == 0 { ComponentType::None } else { ComponentType::Script(SCR[i].to_string()) };
        let ap = match k[2] {
            0 => PropertyApplicationType::Properties,
            1 => PropertyApplicationType::Dictionary,
            _ => PropertyApplicationType::Metadata,
        };
        let vis = if k[3] == 0 { VisualType::None } else { VisualType::Mesh };
        let col = [CollisionType::None, CollisionType::Convex, CollisionType::Concave][k[4]];
        c.defs.push(if k[5] == 1 {
            Def::point(string(&name), et, ct, ap, Properties::default())
        } else {
            Def::brush(string(&name), et, ct, ap, Properties::default(), vis, col)
        });
        defs.push((name, k));
    }
    let mut m = Map::new();
    if !world {
        m.class("worldspawn");
        m.close();
    }
    m.open();
    propb(&mut m, "classname", &cls);
    m.brush(&cuboid([0.0; 3], [8.0, 8.0, 8.0], "wall"));
    m.close();
    let mut mine = None;
    for (i, d) in defs.iter().enumerate() {
        if mine.is_none() && same(&d.0, &cls) {
            mine = Some(i);
        }
    }
    if let Some(s) = scene(&m, c) {
        check(s.len() == if world { 1 } else { 2 }, "each entity is there");
        let node = &s[s.len() - 1];
        let a = match actor(node) {
            Some((a, _)) => a,
            None => {
                check(false, "an entity is an actor");
                return;
            }
        };
        check(same(a.name.as_bytes(), &cls), "an actor has the name of its class");
        let (k, at) = match mine {
            Some(i) => (defs[i].1, i),
            None => ([0; 6], 0),
        };
        let (e, pay) = kind_of(&a.entity_type);
        check(e == k[0] && (e == 0 || pay == PAY[at]), "the entity type is that of the first definition");
        let script = if k[1] == 1 { Some(SCR[at]) } else { None };
        check(a.component_class.as_deref() == script, "the script is that of the first definition");
        check(app_of(&a.property_application_type) == k[2], "the application kind is that of the first definition");
        let brush = k[5] == 0;
        check(visual_nodes(node) == (brush && k[3] == 1) as usize, "visuals if the first definition asks for them");
        check(collision_nodes(node) == (brush && k[4] > 0) as usize, "collision if the first definition asks for it");
        check((convex(node).len() == 1) == (brush && k[4] == 1), "convex collision if the first definition asks for it");
        check((concave(node).len() == 1) == (brush && k[4] == 2), "concave collision if the first definition asks for it");
        reach(if mine.is_some() { "defined" } else { "undefined" });
    }
}
pub fn h_c19_names() {
    definitions(choose("definitions", 4), 2, false);
}
/// many definitions: the first of the right name counts
pub fn h_c19_many() {
    let n = 9;
    let at = choose("at", n);
    let again = choose("again", n);
    let kind = choose("kind", 4);
    let cls = ["func_wall", "worldspawn", "a", "func"][choose("class", 4)];
    let near = [cls.to_uppercase(), format!("{}_", cls), cls[1..].to_string(), cls[..cls.len() - 1].to_string(), format!("{}{}", cls, cls)];
    let mut c = Cfg::new();
    for i in 0..n {
        let own = i == at || i == again;
        let name = if own { cls.to_string() } else { near[i % 5].clone() };
        let k = (i + kind) % 4;
        let et = match k {
            0 => EntityType::Placeholder,
            1 => EntityType::prefab(&format!("P{}", i)),
            _ => EntityType::class(&format!("K{}", i)),
        };
        let ct = if k == 3 { ComponentType::None } else { ComponentType::Script(format!("S{}", i)) };
        c.defs.push(Def::brush(
            name,
            et,
            ct,
            [PropertyApplicationType::Properties, PropertyApplicationType::Metadata, PropertyApplicationType::Dictionary, PropertyApplicationType::Metadata][k].clone(),
            Properties::default(),
            if k % 2 == 0 { VisualType::Mesh } else { VisualType::None },
            [CollisionType::Convex, CollisionType::Concave, CollisionType::None, CollisionType::Convex][k],
        ));
    }
    let mut m = Map::new();
    if cls != "worldspawn" {
        m.class("worldspawn");
        m.close();
    }
    m.class(cls);
    m.brush(&cuboid([0.0; 3], [8.0, 8.0, 8.0], "wall"));
    m.close();
    if let Some(s) = scene(&m, c) {
        let node = &s[s.len() - 1];
        let i = at.min(again);
        let k = (i + kind) % 4;
        if let Some((a, _)) = actor(node) {
            let (e, pay) = kind_of(&a.entity_type);
            let (we, wp) = [(0, String::new()), (2, format!("P{}", i)), (1, format!("K{}", i)), (1, format!("K{}", i))][k].clone();
            check(e == we && (e == 0 || pay == wp), "the entity type is that of the first definition");
            let script = if k == 3 { None } else { Some(format!("S{}", i)) };
            check(a.component_class == script, "the script is that of the first definition");
            check(app_of(&a.property_application_type) == [0, 2, 1, 2][k], "the application kind is that of the first definition");
        } else {
            check(false, "an entity is an actor");
        }
        check(visual_nodes(node) == (k % 2 == 0) as usize, "visuals if the first definition asks for them");
        check(convex(node).len() == (k == 0 || k == 3) as usize, "convex collision if the first definition asks for it");
        check(concave(node).len() == (k == 1) as usize, "concave collision if the first definition asks for it");
        reach("end");
    }
}
pub fn h_c19_kinds() {
    definitions(1, 1, true);
}
pub fn h_c19_kinds_deep() {
    definitions(2, 1, true);
}

// ---- C18

pub fn fprop(name: &str, d: PropertyData) -> forge::Property {
    forge::Property::new(name, "", "", d)
}
fn f3(v: &[f32; 3]) -> String {
    [ft(v[0]), ft(v[1]), ft(v[2])].join(" ")
}
fn num(name: &str) -> f32 {
    fl(name, -1.0e30, 1.0e30)
}
fn i32s(name: &str) -> i64 {
    int(name, 32, i32::MIN as i64, i32::MAX as i64) as i32 as i64
}
fn point_map(class: &str) -> Map {
    let mut m = Map::new();
    m.class("worldspawn");
    m.close();
    m.class(class);
    m
}
/// the second node's properties
fn props_of(s: &[SceneTreeNode]) -> Option<&Properties> {
    check(s.len() == 2, "both entities are there");
    if s.len() != 2 {
        return None;
    }
    actor(&s[1]).map(|a| &a.0.properties)
}
const BAD_INT: [&str; 7] = ["", "x", "1.5", "1 ", "2147483648", "-2147483649", "0x10"];
const BAD_FLOAT: [&str; 5] = ["", "x", "1,5", "1 ", "--1"];
const BAD_V3: [&str; 8] = ["", "1", "1 2", "1 2 x", "x 2 3", "1  2 3", "1 y 3", "1,2,3"];
const BAD_COLOR: [&str; 8] = ["", "255", "255 2", "255 2 x", "x 2 3", "1  2 3", "1 y 3", "#ffffff"];

/// one property of any kind with any value or none
pub fn h_c18_kinds() {
    hash_mode(1);
    let kind = choose("kind", 9);
    let how = choose("value", 3);
    let d = match kind {
        0 => PropertyData::Integer(i32s("default") as i32),
        1 => PropertyData::Float(num("default")),
        2 => PropertyData::Vector3(Vector3::new(num("dx"), num("dy"), num("dz"))),
        3 => PropertyData::String("deflt".to_string()),
        4 => PropertyData::Color(Color::new(num("dr"), num("dg"), num("db"))),
        5 => PropertyData::Choices(vec![], i32s("default") as i32),
        6 => PropertyData::Flags(vec![], i32s("default") as i32),
        7 => PropertyData::TargetSource,
        _ => PropertyData::TargetDestination,
    };
    let mut m = point_map("light");
    let x = [num("x"), num("y"), num("z")];
    let n = i32s("n");
    let text: &[u8] = &letters("s", 3);
    match (how, kind) {
        (0, _) => {}
        (1, 0) | (1, 5) | (1, 6) => m.prop("key", &it(n)),
        (1, 1) => m.prop("key", &ft(x[0])),
        (1, 2) => m.prop("key", &f3(&x)),
        (1, 4) => m.prop("key", &f3(&x)),
        (2, 0) | (2, 5) | (2, 6) => m.prop("key", BAD_INT[choose("bad", BAD_INT.len())]),
        (2, 1) => m.prop("key", BAD_FLOAT[choose("bad", BAD_FLOAT.len())]),
        (2, 2) => m.prop("key", BAD_V3[choose("bad", BAD_V3.len())]),
        (2, 4) => m.prop("key", BAD_COLOR[choose("bad", BAD_COLOR.len())]),
        _ => propb(&mut m, "key", text),
    }
    m.close();
    let c = Cfg::new().props("light", vec![fprop("key", d.clone())]);
    if let Some(s) = scene(&m, c) {
        let p = match props_of(&s) {
            Some(p) => p,
            None => return,
        };
        check(p.0.len() == 1, "exactly the declared property");
        let given = how == 1;
        match (p.0.get("key"), &d) {
            (Some(Property::Integer(v)), PropertyData::Integer(d))
            | (Some(Property::Choices(v)), PropertyData::Choices(_, d))
            | (Some(Property::Flags(v)), PropertyData::Flags(_, d)) => {
                check(*v == if given { n as i32 } else { *d }, "the value of the map, else the default");
                reach("integer");
            }
            (Some(Property::Float(v)), PropertyData::Float(d)) => {
                check(*v == if given { x[0] } else { *d }, "the value of the map, else the default");
                reach("float");
            }
            (Some(Property::Vector3(v)), PropertyData::Vector3(d)) => {
                check(equal(v3(*v), if given { x } else { v3(*d) }), "the value of the map, else the default as a whole");
                reach("vector");
            }
            (Some(Property::Color(v)), PropertyData::Color(d)) => {
                for i in 0..3 {
                    let got = [v.r, v.g, v.b][i];
                    if given {
                        // 0 to 255 stand for 0 to 1
                        let e = x[i] / 255.0;
                        check(got == e, "a colour of the map, 255 standing for 1");
                    } else {
                        check(got == [d.r, d.g, d.b][i], "the default colour as a whole");
                    }
                }
                reach("color");
            }
            (Some(Property::String(v)), PropertyData::String(d)) => {
                check(same(v.as_bytes(), if how == 0 { d.as_bytes() } else { text }), "the text of the map, else the default");
                reach("string");
            }
            (Some(Property::TargetSource), PropertyData::TargetSource) => reach("source"),
            (Some(Property::TargetDestination), PropertyData::TargetDestination) => reach("destination"),
            _ => check(false, "a property has the declared type"),
        }
    }
}
/// many properties of all kinds in several entities of the same and other
/// classes, in any order, some given and some not
pub fn h_c18_many() {
    let kinds = 7;
    let turn = choose("turn", kinds);
    let given = choose("given", 8);
    let x = [num("x"), num("y"), num("z")];
    let n = i32s("n");
    let key = |i: usize| ["k", "kk", "key", "_k", "k2", "the key", "k_"][i];
    let data = |i: usize, e: usize| {
        let v = 3.0 + e as f32;
        match (i + turn) % kinds {
            0 => PropertyData::Integer(5 + e as i32),
            1 => PropertyData::Float(v),
            2 => PropertyData::Vector3(Vector3::new(v, 2.0, 3.0)),
            3 => PropertyData::String(format!("d{}", e)),
            4 => PropertyData::Color(Color::new(v, 0.5, 0.25)),
            5 => PropertyData::Choices(vec![], 1 + e as i32),
            _ => PropertyData::Flags(vec![], 9 + e as i32),
        }
    };
    // which properties entity e gives
    let has = |i: usize, e: usize| match given {
        0 => false,
        1 => true,
        2 => i % 2 == e % 2,
        3 => i == e,
        4 => i != e,
        5 => e == 2,
        6 => e != 1,
        _ => i >= 4,
    };
    let mut m = Map::new();
    m.class("worldspawn");
    m.close();
    let classes = ["light", "door", "light", "lamp", "light"];
    for (e, c) in classes.iter().enumerate() {
        m.class(c);
        for j in 0..kinds {
            let i = (j * 3 + e) % kinds;
            if has(i, e) {
                let v = match (i + turn) % kinds {
                    0 | 5 | 6 => it(n),
                    1 => ft(x[e % 3]),
                    2 | 4 => f3(&x),
                    _ => format!("text {}", e),
                };
                m.prop(key(i), &v);
            }
        }
        m.close();
    }
    let mut c = Cfg::new();
    for (e, cl) in ["light", "door", "lamp"].iter().enumerate() {
        c = c.props(cl, (0..kinds).map(|i| fprop(key(i), data(i, e))).collect());
    }
    if let Some(s) = scene(&m, c) {
        check(s.len() == 6, "every entity is there");
        for e in 0..5.min(s.len() - 1) {
            let p = match actor(&s[e + 1]) {
                Some(a) => &a.0.properties,
                None => continue,
            };
            check(p.0.len() == kinds, "exactly the declared properties");
            let d = [0, 1, 0, 2, 0][e];
            let v = 3.0 + d as f32;
            for i in 0..kinds {
                let g = has(i, e);
                let ok = match ((i + turn) % kinds, p.0.get(key(i))) {
                    (0, Some(Property::Integer(k))) => *k == if g { n as i32 } else { 5 + d },
                    (1, Some(Property::Float(k))) => *k == if g { x[e % 3] } else { v },
                    (2, Some(Property::Vector3(k))) => equal(v3(*k), if g { x } else { [v, 2.0, 3.0] }),
                    (3, Some(Property::String(k))) => *k == if g { format!("text {}", e) } else { format!("d{}", d) },
                    (4, Some(Property::Color(k))) => {
                        let w = if g { [x[0] / 255.0, x[1] / 255.0, x[2] / 255.0] } else { [v, 0.5, 0.25] };
                        (k.r == w[0]) & (k.g == w[1]) & (k.b == w[2])
                    }
                    (5, Some(Property::Choices(k))) => *k == if g { n as i32 } else { 1 + d },
                    (6, Some(Property::Flags(k))) => *k == if g { n as i32 } else { 9 + d },
                    _ => false,
                };
                check(ok, "the value of the map, else the default of the entity's class");
            }
        }
        reach("end");
    }
}
/// whole numbers as decimal text of any characters
fn integer_text(len: usize) {
    hash_mode(1);
    let n = choose("length", len + 1);
    let t = letters("t", n);
    let kind = choose("kind", 3);
    let d = match kind {
        0 => PropertyData::Integer(-7),
        1 => PropertyData::Choices(vec![], -7),
        _ => PropertyData::Flags(vec![], -7),
    };
    // by definition
    let (neg, from) = match t.first() {
        Some(b'-') => (true, 1),
        Some(b'+') => (false, 1),
        _ => (false, 0),
    };
    let mut ok = n > from;
    let mut v = 0i64;
    for c in &t[from..] {
        ok &= *c >= b'0' && *c <= b'9';
        v = v * 10 + (*c as i64 - 48);
    }
    let want = if ok { (if neg { -v } else { v }) as i32 } else { -7 };
    let mut m = point_map("light");
    propb(&mut m, "key", &t);
    m.close();
    if let Some(s) = scene(&m, Cfg::new().props("light", vec![fprop("key", d)])) {
        match props_of(&s).and_then(|p| p.0.get("key")) {
            Some(Property::Integer(x)) | Some(Property::Choices(x)) | Some(Property::Flags(x)) => {
                check(*x == want, "a whole number as written, else the default");
                reach(if ok { "number" } else { "text" });
            }
            _ => check(false, "the property is there"),
        }
    }
}
pub fn h_c18_integer_text() {
    integer_text(3);
}
pub fn h_c18_integer_text_deep() {
    integer_text(6);
}
/// delicate spellings of floats
pub fn h_c18_float_text() {
    hash_mode(1);
    const T: [(&str, Option<f32>); 12] = [
        ("1", Some(1.0)), ("-0.5", Some(-0.5)), ("+2", Some(2.0)), (".25", Some(0.25)), ("3.", Some(3.0)), ("1e3", Some(1000.0)), ("1E-2", Some(0.01)),
        ("16777217", Some(16777216.0)), ("1e", None), (".", None), ("1 2", None), ("1f", None),
    ];
    let (t, w) = T[choose("text", T.len())];
    let place = choose("place", 7);
    let mut m = point_map("light");
    let (d, text) = match place {
        0 => (PropertyData::Float(-7.0), t.to_string()),
        p if p > 3 => (PropertyData::Color(Color::new(-7.0, -8.0, -9.0)), (4..7).map(|i| if i == p { t } else { "51" }).collect::<Vec<_>>().join(" ")),
        p => (PropertyData::Vector3(Vector3::new(-7.0, -8.0, -9.0)), (1..4).map(|i| if i == p { t } else { "5" }).collect::<Vec<_>>().join(" ")),
    };
    assume(place == 0 || t != "1 2");
    m.prop("key", &text);
    m.close();
    if let Some(s) = scene(&m, Cfg::new().props("light", vec![fprop("key", d)])) {
        match props_of(&s).and_then(|p| p.0.get("key")) {
            Some(Property::Float(x)) => check(*x == w.unwrap_or(-7.0), "a number as written, else the default"),
            Some(Property::Vector3(v)) => {
                let mut e = [5.0; 3];
                match w {
                    Some(w) => e[place - 1] = w,
                    None => e = [-7.0, -8.0, -9.0],
                }
                check(equal(v3(*v), e), "a vector as written, else the whole default");
            }
            Some(Property::Color(c)) => {
                let mut e = [51.0 / 255.0; 3];
                match w {
                    Some(w) => e[place - 4] = w / 255.0,
                    None => e = [-7.0, -8.0, -9.0],
                }
                check(equal([c.r, c.g, c.b], e), "a colour as written, 255 standing for 1, else the whole default");
            }
            _ => check(false, "the property is there"),
        }
        reach("end");
    }
}
/// classes, names and further properties
fn declared(n: usize, len: usize) {
    hash_mode(1);
    // the class of the entity is "aa"; definitions of any name
    let mut c = Cfg::new();
    let mut defs: Vec<(Vec<u8>, Vec<Vec<u8>>)> = Vec::new();
    for i in 0..n {
        let name = letters(&format!("def{}", i), 2);
        let k = choose(&format!("properties{}", i), 3);
        let props: Vec<Vec<u8>> = (0..k).map(|j| letters(&format!("p{}{}", i, j), len)).collect();
        // a property is declared once
        if k == 2 {
            assume(!same(&props[0], &props[1]));
        }
        c.forge.push(forge::Entity::new(
            forge::ClassType::PointClass,
            vec![],
            &string(&name),
            "",
            props.iter().enumerate().map(|(j, p)| fprop(&string(p), PropertyData::Integer(10 * i as i32 + j as i32))).collect(),
        ));
        defs.push((name, props));
    }
    // keys that are in the map and declared nowhere change nothing
    let key = letters("key", len);
    let val = i32s("val");
    let mut m = Map::new();
    m.class("worldspawn");
    m.close();
    m.class("aa");
    let mut s: Vec<u8> = vec![b'"'];
    s.extend_from_slice(&key);
    s.extend_from_slice(b"\" \"");
    s.extend_from_slice(it(val).as_bytes());
    s.push(b'"');
    m.raw(&s);
    m.close();
    let mine = {
        let mut r = None;
        for (i, d) in defs.iter().enumerate() {
            if r.is_none() && same(&d.0, b"aa") {
                r = Some(i);
            }
        }
        r
    };
    if let Some(s) = scene(&m, c) {
        let p = match props_of(&s) {
            Some(p) => p,
            None => return,
        };
        match mine {
            None => {
                check(p.0.is_empty(), "a class without definition has no properties");
                reach("undefined");
            }
            Some(i) => {
                check(p.0.len() == defs[i].1.len(), "exactly the declared properties");
                for (j, k) in defs[i].1.iter().enumerate() {
                    let want = if same(k, &key) { val as i32 } else { 10 * i as i32 + j as i32 };
                    match p.0.get(&string(k)) {
                        Some(Property::Integer(v)) => check(*v == want, "the value under this very name, else the default"),
                        _ => check(false, "every declared property is there"),
                    }
                }
                reach("defined");
            }
        }
    }
}
pub fn h_c18_declared() {
    declared(2, 1);
}
pub fn h_c18_declared_deep() {
    declared(3, 2);
}
/// the editor's own properties
pub fn h_c18_internal() {
    hash_mode(1);
    let known = flag("known");
    let mut m = Map::new();
    m.class("worldspawn");
    m.close();
    m.class("light");
    let mut want: Vec<(&str, Option<i64>)> = Vec::new();
    let mut texts: Vec<(&str, Vec<u8>)> = Vec::new();
    for k in ["_tb_id", "_tb_type", "_tb_name"] {
        match choose(k, 3) {
            0 => {}
            1 => {
                let v = i32s(k);
                m.prop(k, &it(v));
                want.push((k, Some(v)));
                if k != "_tb_id" {
                    texts.push((k, it(v).into_bytes()));
                }
            }
            _ => {
                // no number
                let mut v = letters(k, 1);
                v.push(b'x');
                propb(&mut m, k, &v);
                want.push((k, None));
                if k != "_tb_id" {
                    texts.push((k, v));
                }
            }
        }
    }
    m.prop("other", "1");
    m.close();
    let mut c = Cfg::new();
    if known {
        c = c.props("light", vec![sprop("name", "d")]);
    }
    if let Some(s) = scene(&m, c) {
        let p = match props_of(&s) {
            Some(p) => p,
            None => return,
        };
        if !known {
            check(p.0.is_empty(), "a class without definition has no properties");
            return;
        }
        let mut count = 1;
        match (want.iter().find(|w| w.0 == "_tb_id"), p.0.get("_tb_id")) {
            (Some((_, Some(v))), Some(Property::Integer(x))) => {
                check(*x as i64 == *v, "the id is a whole number");
                count += 1;
                reach("id");
            }
            (Some((_, Some(_))), _) => check(false, "a whole number as id is kept"),
            (_, x) => check(x.is_none(), "an id that is no number is left out"),
        }
        for (k, v) in &texts {
            count += 1;
            match p.0.get(*k) {
                Some(Property::String(x)) => {
                    check(same(x.as_bytes(), v), "type and name are texts");
                    reach("text");
                }
                _ => check(false, "type and name are kept"),
            }
        }
        check(p.0.len() == count, "nothing else is there");
    }
}
/// the group as a property
pub fn h_c18_group() {
    hash_mode(1);
    let v = i32s("v");
    let plain = flag("number");
    let mut m = Map::new();
    m.class("worldspawn");
    m.close();
    let g = if plain { it(v) } else { "g1".to_string() };
    m.class("func_group");
    m.prop("_tb_id", &g);
    m.close();
    m.class("light");
    m.prop("_tb_group", &g);
    m.close();
    let c = Cfg::new().props("light", vec![]).props("func_group", vec![]);
    if let Some(s) = scene(&m, c) {
        check(s.len() == 2 && children(&s[1]).len() == 1, "the light is in its group");
        if s.len() == 2 && children(&s[1]).len() == 1 {
            for (n, k) in [(&s[1], "_tb_id"), (&children(&s[1])[0], "_tb_group")] {
                match (prop(n, k), plain) {
                    (Some(Property::Integer(x)), true) => {
                        check(*x as i64 == v, "id and group are whole numbers");
                        reach("number");
                    }
                    (None, false) => reach("text"),
                    _ => check(false, "id and group are there if they are numbers"),
                }
            }
        }
    }
}
