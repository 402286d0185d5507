//! C01-C03: reading map text.
use crate::prelude::*;
use crate::scene::*;

const E: f32 = 0.01;

/// a number with three fractional bits
fn g(name: &str) -> f32 {
    grid(name, -4096 * 8, 4096 * 8, 3)
}
fn point(name: &str) -> V {
    [g(name), g(name), g(name)]
}
/// arbitrary ASCII text without quotes and line ends
fn word(name: &str, n: usize) -> Vec<u8> {
    (0..n)
        .map(|_| {
            let b = un(name, 8, 1, 127) as u8;
            assume((b != b'"') & (b != b'\n') & (b != b'\r'));
            b
        })
        .collect()
}
fn text(b: &[u8]) -> &str {
    unsafe { std::str::from_utf8_unchecked(b) }
}

struct Ent {
    class: String,
    values: Vec<(usize, Vec<u8>)>,
    brushes: Vec<V>,
}
const KEYS: [&str; 2] = ["k", "k2"];

fn cfg(n: usize) -> Cfg {
    let mut c = Cfg::new().class("worldspawn", VisualType::None, CollisionType::Convex);
    c = c.props("worldspawn", vec![sprop("k", "none"), sprop("k2", "none")]);
    for i in 0..n {
        let name = format!("e{}", i);
        c = c.class(&name, VisualType::None, CollisionType::Convex).props(&name, vec![sprop("k", "none"), sprop("k2", "none")]);
    }
    c
}
fn lines(ents: &[Ent], late: bool) -> Map {
    let mut m = Map::new();
    for e in ents {
        m.open();
        let put = |m: &mut Map| {
            for (k, v) in &e.values {
                m.prop(KEYS[*k], text(v));
            }
        };
        m.prop("classname", &e.class);
        if !late {
            put(&mut m);
        }
        for b in &e.brushes {
            m.brush(&corner(*b, "t"));
        }
        if late {
            put(&mut m);
        }
        m.close();
    }
    m
}
/// worldspawn first, the others in file order; brushes and values as given
fn expect(ents: &[Ent], got: &[SceneTreeNode]) {
    check(got.len() == ents.len(), "one actor for each entity");
    if got.len() != ents.len() {
        return;
    }
    let mut order: Vec<&Ent> = ents.iter().filter(|e| e.class == "worldspawn").collect();
    order.extend(ents.iter().filter(|e| e.class != "worldspawn"));
    for (e, n) in order.iter().zip(got) {
        check(name(n) == e.class, "worldspawn first, then the others in file order");
        for (i, k) in KEYS.iter().enumerate() {
            let want: &[u8] = e.values.iter().filter(|v| v.0 == i).last().map_or(b"none", |v| &v.1);
            check(text_prop(n, k).map_or(false, |s| same(s.as_bytes(), want)), "the last value of each key");
        }
        let shapes = convex(n);
        check(shapes.len() == e.brushes.len(), "an entity has exactly its brushes");
        for (b, s) in e.brushes.iter().zip(&shapes) {
            check(s.1.len() == 1 && close(s.1[0], *b, E), "brushes in file order with their own faces");
        }
    }
}
fn ents(n: usize, brushes: usize, values: usize) -> Vec<Ent> {
    let w = choose("worldspawn", n);
    (0..n)
        .map(|i| Ent {
            class: if i == w { "worldspawn".to_string() } else { format!("e{}", i) },
            values: (0..choose("values", values + 1)).map(|j| (choose("key", 2), format!("v{}{}", i, if j < 2 { j } else { 0 }).into_bytes())).collect(),
            brushes: (0..choose("brushes", brushes + 1)).map(|_| point("p")).collect(),
        })
        .collect()
}
fn structure(n: usize, brushes: usize, values: usize) {
    let n = 1 + choose("entities", n);
    let es = ents(n, brushes, values);
    let m = lines(&es, flag("late"));
    if let Some(s) = scene(&m, cfg(n)) {
        expect(&es, &s);
        obs_scene(&s);
        reach("end");
    }
}
/// many entities, brushes and values
pub fn h_c01_many() {
    let n = 9;
    let w = choose("worldspawn", n);
    let turn = choose("turn", 4);
    let late = flag("late");
    let es: Vec<Ent> = (0..n)
        .map(|i| Ent {
            class: if i == w { "worldspawn".to_string() } else { format!("e{}", i % 4) },
            values: (0..(i + turn) % 5).map(|j| ((i + j) / 2 % 2, format!("v{}{}", i, j).into_bytes())).collect(),
            brushes: (0..(i * 3 + turn) % 5)
                .map(|j| if i == w { point("p") } else { [8.0 * (i + j) as f32, -16.0 * j as f32, 24.0] })
                .collect(),
        })
        .collect();
    let m = lines(&es, late);
    if let Some(s) = scene(&m, cfg(4)) {
        expect(&es, &s);
        reach("end");
    }
}
/// up to two entities, any worldspawn place, brushes and repeated keys
pub fn h_c01_structure() {
    structure(2, 2, 2)
}
pub fn h_c01_structure_deep() {
    structure(3, 2, 2)
}
fn fixed() -> Vec<Ent> {
    vec![
        Ent { class: "worldspawn".into(), values: vec![(0, b"x".to_vec()), (0, b"y z".to_vec())], brushes: vec![point("p"), point("p")] },
        Ent { class: "e1".into(), values: vec![(1, b"x".to_vec())], brushes: vec![point("p")] },
        Ent { class: "e2".into(), values: vec![], brushes: vec![] },
    ]
}
fn noise(n: usize) -> Vec<u8> {
    match choose("noise", 6) {
        0 => b"// entity 0".to_vec(),
        1 => Vec::new(),
        2 => b" {".to_vec(),
        3 => b"\t\"k\" \"w\"".to_vec(),
        4 => b"//{".to_vec(),
        _ => {
            // any line whose first character is no map symbol
            let mut l = word("noise", n);
            l[0] = un("first", 8, 1, 127) as u8;
            let f = l[0];
            assume(
                (f != b'"') & (f != b'{') & (f != b'}') & (f != b'(') & (f != b'\n') & (f != b'\r'),
            );
            l
        }
    }
}
/// a foreign line at any place
pub fn h_c01_noise() {
    let es = fixed();
    let mut m = lines(&es, false);
    let at = choose("at", m.lines.len() + 1);
    m.lines.insert(at, noise(2));
    if let Some(s) = scene(&m, cfg(3)) {
        expect(&es, &s);
        obs_scene(&s);
        reach("end");
    }
}
/// two foreign lines
pub fn h_c01_noise_deep() {
    let es = fixed();
    let mut m = lines(&es, flag("late"));
    let at = choose("at", m.lines.len() + 1);
    m.lines.insert(at, noise(4));
    let at2 = choose("at2", m.lines.len() + 1);
    m.lines.insert(at2, noise(1));
    if let Some(s) = scene(&m, cfg(3)) {
        expect(&es, &s);
        reach("end");
    }
}
/// line ends and what follows a symbol on its line
pub fn h_c01_lines() {
    let es = fixed();
    let mut m = lines(&es, false);
    let tail = choose("tail", 3);
    for l in m.lines.iter_mut() {
        if l[0] == b'{' || l[0] == b'}' || l[0] == b'"' {
            match tail {
                1 => l.push(b' '),
                2 => l.extend_from_slice(b" // x"),
                _ => {}
            }
        }
    }
    let data = match choose("ending", 3) {
        0 => m.ending(b"\n", false),
        1 => m.ending(b"\r\n", true),
        _ => m.ending(b"\r\n", false),
    };
    let r = convert_bytes(&data, cfg(3));
    check(r.is_ok(), "a well-formed map is converted");
    if let Ok(s) = r {
        expect(&es, &s);
        reach("end");
    }
}
/// any key with any value, next to similar keys
pub fn h_c01_pairs() {
    let n = choose("klen", 4);
    let key = word("key", n);
    let val = word("value", [2, 0, 1][choose("vlen", 3)]);
    hash_mode(1);
    let mut m = Map::new();
    m.class("worldspawn");
    m.prop("ab", "1");
    m.prop(text(&key), text(&val));
    m.prop("Ab", "2");
    m.close();
    let c = Cfg::new().props("worldspawn", vec![sprop("ab", "none"), sprop("a", "none"), sprop("Ab", "none"), sprop("", "none")]);
    if same(&key, b"classname") {
        return;
    }
    if let Some(s) = scene(&m, c) {
        if s.len() != 1 {
            check(false, "one actor for each entity");
            return;
        }
        let want = |k: &str, other: &[u8]| -> bool {
            let hit = same(&key, k.as_bytes());
            let (w, w2): (&[u8], &[u8]) = (if hit { &val } else { other }, b"");
            let _ = w2;
            text_prop(&s[0], k).map_or(false, |t| same(t.as_bytes(), w))
        };
        check(want("ab", b"1"), "a value belongs to exactly its key");
        check(want("a", b"none"), "a value belongs to exactly its key");
        check(want("", b"none"), "a value belongs to exactly its key");
        check(text_prop(&s[0], "Ab").map_or(false, |t| t == "2"), "the last value of a repeated key counts");
        reach("end");
    }
    hash_mode(0);
}
/// faces of a brush keep their order and their own fields
pub fn h_c01_faces() {
    let p = point("p");
    let order = [[0, 1, 2], [0, 2, 1], [1, 0, 2], [1, 2, 0], [2, 0, 1], [2, 1, 0]][choose("order", 6)];
    let u = [g("u"), g("u"), g("u")];
    let f = corner(p, "t");
    let faces: Vec<Face> = order.iter().map(|i| f[*i].clone().uv(u[*i], 0.0)).collect();
    let mut m = Map::new();
    m.class("worldspawn");
    m.brush(&faces);
    m.close();
    let c = Cfg::new().texture("t", 1, 1).class("worldspawn", VisualType::Mesh, CollisionType::Convex);
    if let Some(s) = scene(&m, c) {
        let sf = surfaces(&s[0]);
        check(sf.len() == 1 && sf[0].vertices.len() == 3, "every face of the brush once");
        if sf.len() != 1 || sf[0].vertices.len() != 3 {
            return;
        }
        let uvs = match &sf[0].uvs {
            Some(u) if u.len() == 3 => u,
            _ => {
                check(false, "a coordinate for every vertex");
                return;
            }
        };
        for (i, a) in order.iter().enumerate() {
            let n = v3(sf[0].normals[i]);
            check(n[*a] > 0.9, "faces in file order");
            let proj = if *a == 0 { p[1] } else { p[0] };
            check(near(v2(uvs[i])[0], proj + u[*a], 0.1), "a face has its own fields");
        }
        obs_scene(&s);
        reach("end");
    }
}

// ---------------------------------------------------------------- C02
const FACE: &str = "( 1 0 0 ) ( 1 0 1 ) ( 1 1 0 ) t 0 0 0 1 1";

/// what a sequence of map lines is by the grammar, decided on its own
fn well_formed(lines: &[&str]) -> bool {
    let (mut depth, mut class, mut spawns) = (0, "", 0);
    for l in lines {
        match (*l, depth) {
            ("{", 0) => {
                depth = 1;
                class = "";
            }
            ("{", 1) => depth = 2,
            ("{", _) => return false,
            ("}", 0) => return false,
            ("}", 1) => {
                if class == "" {
                    return false;
                }
                if class == "worldspawn" {
                    spawns += 1;
                }
                depth = 0;
            }
            ("}", _) => depth = 1,
            (l, d) if l.starts_with('"') => {
                if d != 1 {
                    return false;
                }
                if l == "\"classname\" \"worldspawn\"" {
                    class = "worldspawn";
                } else if l == "\"classname\" \"e\"" {
                    class = "e";
                }
            }
            (l, d) if l.starts_with('(') => {
                if d != 2 {
                    return false;
                }
            }
            _ => {}
        }
    }
    depth == 0 && spawns == 1
}
fn verdict(m: &[u8], good: bool) -> bool {
    let c = Cfg::new().texture("t", 16, 16).class("worldspawn", VisualType::Mesh, CollisionType::Concave);
    let r = convert_bytes(m, c);
    if good {
        check(r.is_ok(), "a well-formed map is converted");
        reach("accepted");
    } else {
        check(r.is_err(), "a malformed map is an error");
        reach("refused");
    }
    obs("ok", r.is_ok() as u64);
    r.is_ok()
}
fn sequences(len: usize) {
    const ALPHABET: [&str; 7] = ["{", "}", "\"classname\" \"worldspawn\"", "\"classname\" \"e\"", "\"k\" \"v\"", FACE, "// c"];
    const PREFIX: [&[&str]; 4] = [
        &[],
        &["{", "\"classname\" \"worldspawn\""],
        &["{", "\"classname\" \"worldspawn\"", "{"],
        &["{", "\"classname\" \"worldspawn\"", "}", "{", "\"classname\" \"e\"", "{", FACE, "}"],
    ];
    const SUFFIX: [&[&str]; 4] = [&[], &["}"], &["}", "}"], &["{", "\"classname\" \"worldspawn\"", "}"]];
    let mut l: Vec<&str> = PREFIX[choose("prefix", 4)].to_vec();
    for _ in 0..len {
        l.push(ALPHABET[choose("line", 7)]);
    }
    l.extend_from_slice(SUFFIX[choose("suffix", 4)]);
    let mut m = Map::new();
    for x in &l {
        m.line(x);
    }
    verdict(&m.bytes(), well_formed(&l));
}
/// every sequence of three lines in every scope
pub fn h_c02_sequences() {
    sequences(3)
}
pub fn h_c02_sequences_deep() {
    sequences(4)
}

#[derive(Clone, Copy, PartialEq)]
enum K {
    Int,
    Num,
    Sym(u8),
    Word,
}
/// the grammar of a face line
fn face_ok(t: &[K]) -> bool {
    let num = |k: K| k == K::Num || k == K::Int;
    let mut want: Vec<K> = Vec::new();
    for _ in 0..3 {
        want.extend_from_slice(&[K::Sym(b'('), K::Num, K::Num, K::Num, K::Sym(b')')]);
    }
    let fits = |t: &[K], want: &[K]| {
        t.len() == want.len()
            && t.iter().zip(want).all(|(a, b)| match b {
                K::Num => num(*a),
                b => a == b,
            })
    };
    if t.len() < 17 || !fits(&t[..15], &want) {
        return false;
    }
    let rest = &t[16..];
    let mut axes: Vec<K> = Vec::new();
    let n = if rest[0] == K::Sym(b'[') {
        for _ in 0..2 {
            axes.extend_from_slice(&[K::Sym(b'['), K::Num, K::Num, K::Num, K::Num, K::Sym(b']')]);
        }
        12
    } else {
        axes.extend_from_slice(&[K::Num, K::Num]);
        2
    };
    axes.extend_from_slice(&[K::Num; 3]);
    if rest.len() < n + 3 || !fits(&rest[..n + 3], &axes) {
        return false;
    }
    let x = &rest[n + 3..];
    match x.len() {
        0 => true,
        1 => num(x[0]),
        3 => fits(x, &[K::Int, K::Int, K::Num]),
        6 => fits(x, &[K::Int, K::Int, K::Num, K::Num, K::Num, K::Num]),
        _ => false,
    }
}
fn kind(s: &str) -> K {
    match s {
        "(" | ")" | "[" | "]" => K::Sym(s.as_bytes()[0]),
        "0" | "1" | "-3" | "+4" => K::Int,
        "2.5" | "-.5" | "5." | "1e2" => K::Num,
        _ => K::Word,
    }
}
const SWAP: [&str; 19] = [
    "0", "-3", "+4", "2.5", "-.5", "5.", "1e2", "(", ")", "[", "]", "x", "1x", "0x1", "1,5", "--1", "nan", "inf", "1e99",
];
fn face_tokens(valve: bool, extra: usize) -> Vec<&'static str> {
    let mut t: Vec<&str> = vec!["(", "1", "0", "0", ")", "(", "1", "0", "1", ")", "(", "1", "1", "0", ")", "t"];
    if valve {
        t.extend_from_slice(&["[", "0", "1", "0", "0", "]", "[", "0", "0", "-3", "0", "]"]);
    } else {
        t.extend_from_slice(&["0", "0"]);
    }
    t.extend_from_slice(&["0", "1", "1"]);
    for _ in 0..extra {
        t.push("1");
    }
    t
}
fn mutate(t: &mut Vec<&'static str>, few: bool) {
    let at = choose("field", t.len());
    const FEW: [usize; 6] = [0, 1, 3 + 0, 3 + 3, 3 + 7, 3 + 11];
    let change = if few { FEW[choose("change", 6)] } else { choose("change", SWAP.len() + 3) };
    match change {
        0 => {
            t.remove(at);
        }
        1 => {
            let x = t[at];
            t.insert(at, x);
        }
        2 => t.truncate(at),
        i => t[at] = SWAP[i - 3],
    }
}
fn check_face(t: &[&str]) {
    let mut m = Map::new();
    m.class("worldspawn");
    m.open();
    m.line(FACE);
    // the line itself has to begin with its bracket to be a face line
    if t.len() == 0 || t[0] != "(" {
        return;
    }
    m.line(&t.join(" "));
    m.close();
    m.close();
    let k: Vec<K> = t.iter().map(|s| kind(s)).collect();
    verdict(&m.bytes(), face_ok(&k));
}
/// one changed, missing or repeated field anywhere in a face line
pub fn h_c02_fields() {
    let mut t = face_tokens(flag("valve"), [0, 1, 3, 6][choose("extra", 4)]);
    mutate(&mut t, false);
    check_face(&t);
}
/// two of them
pub fn h_c02_fields_deep() {
    let mut t = face_tokens(flag("valve"), [0, 6][choose("extra", 2)]);
    mutate(&mut t, true);
    if t.len() > 0 {
        mutate(&mut t, true);
    }
    check_face(&t);
}
/// every number of trailing fields
pub fn h_c02_extra() {
    let n = choose("extra", 9);
    let t = face_tokens(flag("valve"), n);
    check_face(&t);
}
/// a number spelled with arbitrary characters
fn spelling(len: usize) {
    let w = word("n", len);
    let at = [1, 13, 17, 18, 20, 21, 23][choose("field", 7)];
    let mut t = face_tokens(false, 3);
    // by hand: sign, digits, point, digits, or digit, e, digit
    let (mut digits, mut points, mut bad, mut space) = (0u32, 0u32, false, false);
    for (i, b) in w.iter().enumerate() {
        let d = (*b >= b'0') & (*b <= b'9');
        let p = *b == b'.';
        let s = ((*b == b'+') | (*b == b'-')) & (i == 0);
        digits += d as u32;
        points += p as u32;
        bad |= !(d | p | s);
        space |= (*b == b' ') | ((*b >= 9) & (*b <= 13));
    }
    assume(!space);
    let int = at == 21;
    let mut good = !bad & (digits > 0) & (points <= if int { 0 } else { 1 });
    if len == 3 && !int {
        good |= (digits == 2) & (w[0] != b'e') & (w[0] != b'E') & (w[2] != b'e') & (w[2] != b'E') & ((w[1] == b'e') | (w[1] == b'E'));
    }
    t[at] = "@";
    let line = t.join(" ");
    let (a, b) = line.split_once('@').unwrap();
    let mut l = a.as_bytes().to_vec();
    l.extend_from_slice(&w);
    l.extend_from_slice(b.as_bytes());
    let mut m = Map::new();
    m.class("worldspawn");
    m.open();
    m.raw(&l);
    m.close();
    m.close();
    hash_mode(1);
    let r = convert_bytes(&m.bytes(), Cfg::new());
    check(r.is_ok() == good, "exactly the lines whose fields are numbers are read");
    obs("ok", r.is_ok() as u64);
    if r.is_ok() {
        reach("accepted");
    } else {
        reach("refused");
    }
}
pub fn h_c02_spelling() {
    spelling(1 + choose("length", 3))
}
/// a property line with arbitrary contents
fn property(len: usize) {
    let n = choose("length", len + 1);
    let mut l = vec![b'"'];
    let mut quotes = 0u32;
    for _ in 0..n {
        let b = un("c", 8, 1, 127) as u8;
        assume((b != b'\n') & (b != b'\r'));
        quotes += (b == b'"') as u32;
        l.push(b);
    }
    let mut m = Map::new();
    m.class("worldspawn");
    m.raw(&l);
    m.close();
    hash_mode(1);
    let r = convert_bytes(&m.bytes(), Cfg::new());
    check(r.is_ok() == (quotes >= 3), "exactly the property lines with two quoted strings are read");
    obs("ok", r.is_ok() as u64);
    if r.is_ok() {
        reach("accepted");
    } else {
        reach("refused");
    }
}
pub fn h_c02_property() {
    property(5)
}
pub fn h_c02_property_deep() {
    property(7)
}
/// files that cannot be read, or are no text
pub fn h_c02_file() {
    match choose("file", 4) {
        0 => {
            let r = quarchitect::run(Cfg::new().config(&path("missing.map")));
            check(r.is_err(), "a missing map file is an error");
        }
        1 => {
            let r = quarchitect::run(Cfg::new().config(&path("dir")));
            check(r.is_err(), "a folder in place of the map file is an error");
        }
        2 => {
            let mut m = Map::new();
            m.class("worldspawn");
            m.close();
            let mut d = m.bytes();
            let at = choose("at", d.len() + 1);
            d.insert(at, un("byte", 8, 128, 255) as u8);
            let r = convert_bytes(&d, Cfg::new());
            check(r.is_err(), "a file that is no text is an error");
        }
        _ => {
            let r = convert_bytes(b"", Cfg::new());
            check(r.is_err(), "an empty map is an error");
        }
    }
    reach("end");
}
/// the three points of a face on a line or on one another
pub fn h_c02_degenerate() {
    let p = point("p");
    let q = grid("q", -64, 64, 1);
    let pts = match choose("points", 4) {
        0 => [p, p, p],
        1 => [p, p, [p[0] + q, p[1], p[2]]],
        2 => [p, [p[0], p[1] + q, p[2]], p],
        _ => [p, [p[0], p[1], p[2] + 1.0], [p[0], p[1], p[2] + 2.0]],
    };
    let mut f = corner([0.0, 0.0, 0.0], "t");
    let at = choose("place", 4);
    let mut bad = Face::new(pts, "t");
    if flag("valve") {
        bad.uv = Uv::Valve([1.0, 0.0, 0.0, 0.0], [0.0, 1.0, 0.0, 0.0]);
    }
    f.insert(at, bad);
    let mut m = Map::new();
    m.class("worldspawn");
    if flag("phong") {
        m.prop("_phong", "1");
    }
    m.brush(&f);
    m.close();
    let c = Cfg::new().texture("t", 16, 16).class("worldspawn", VisualType::Mesh, CollisionType::Concave);
    let r = convert(&m, c);
    check(r.is_ok(), "a face without extent is no fault of the text");
    reach("end");
}

// ---------------------------------------------------------------- C03
const AT: V = [1.0, 16.0, 256.0];

fn one_face(f: Face, axis: usize, at: V, c: Cfg, gap: Option<(usize, &str)>) -> Option<(Vec<SceneTreeNode>, V)> {
    let mut m = Map::new();
    m.class("worldspawn");
    m.open();
    // the others have no known texture
    for a in 0..3 {
        if a == axis {
            let t = f.tokens();
            let mut s = String::new();
            for (i, x) in t.iter().enumerate() {
                if i > 0 {
                    match gap {
                        Some((g, w)) if g == i => s.push_str(w),
                        _ => s.push(' '),
                    }
                }
                s.push_str(x);
            }
            if let Some((g, w)) = gap {
                if g == t.len() {
                    s.push_str(w);
                }
            }
            m.line(&s);
        } else {
            m.line(&axis_face(a, false, at[a], "other").text());
        }
    }
    m.close();
    m.close();
    scene(&m, c.class("worldspawn", VisualType::Mesh, CollisionType::Convex)).map(|s| (s, at))
}
fn surface<'a>(s: &'a [SceneTreeNode], tex: &str) -> Option<&'a MeshSurface> {
    let all = surfaces(&s[0]);
    let r = all.iter().find(|x| x.texture.as_deref() == Some(tex) && x.vertices.len() == 1);
    check(r.is_some(), "the face is found under its texture");
    r
}
/// coordinates of the plane's points, wherever on the plane they are
pub fn h_c03_points() {
    let axis = choose("axis", 3);
    let neg = flag("neg");
    let d = g("d");
    let (y, z) = (g("y"), g("z"));
    let (k1, k2) = ([1.0, 4.0, -2.0][choose("k1", 3)], [1.0, 8.0, -4.0][choose("k2", 3)]);
    let (a1, a2) = ((axis + 1) % 3, (axis + 2) % 3);
    let mut p = [[0.0; 3]; 3];
    for q in p.iter_mut() {
        q[axis] = d;
        q[a1] = y;
        q[a2] = z;
    }
    // (v2-v0) x (v1-v0) = k1*k2 along the axis
    p[1][a2] += k1;
    p[2][a1] += k2;
    if neg {
        p.swap(1, 2);
    }
    let out = (k1 * k2 > 0.0) != neg;
    // the two other faces of the brush look towards their positive axes
    let mut m = Map::new();
    m.class("worldspawn");
    m.brush(&[
        Face::new(p, "t"),
        axis_face(a1, false, 5.0, "t"),
        axis_face(a2, false, 7.0, "t"),
    ]);
    m.close();
    let c = Cfg::new().texture("t", 1, 1).class("worldspawn", VisualType::Mesh, CollisionType::Convex);
    if let Some(s) = scene(&m, c) {
        let pts = convex(&s[0]);
        let mut want = [0.0; 3];
        want[axis] = d;
        want[a1] = 5.0;
        want[a2] = 7.0;
        check(pts.len() == 1 && pts[0].1.len() == 1 && close(pts[0].1[0], want, E), "the plane is where its points are");
        let sf = surfaces(&s[0]);
        check(sf.len() == 1 && sf[0].normals.len() == 3, "three faces");
        if sf.len() == 1 && sf[0].normals.len() == 3 {
            let n = v3(sf[0].normals[0]);
            check(near(n[axis], if out { 1.0 } else { -1.0 }, 0.001), "the order of the points gives the outside");
        }
        obs_scene(&s);
        reach(if out { "out" } else { "in" });
    }
}
/// offsets, rotation and scale of the standard convention
pub fn h_c03_standard() {
    let axis = choose("axis", 3);
    let (u, v) = (g("u"), g("v"));
    let sx = [1.0, 0.5, -2.0][choose("sx", 3)];
    let sy = [1.0, 0.25, -4.0][choose("sy", 3)];
    let quarter = choose("quarters", 4);
    let mut f = axis_face(axis, false, AT[axis], "t").uv(u, v);
    f.rot = [0.0, 90.0, 180.0, -90.0][quarter];
    f.scale = [sx, sy];
    if let Some((s, at)) = one_face(f, axis, AT, Cfg::new().texture("t", 2, 8), None) {
        let sf = match surface(&s, "t") {
            Some(x) => x,
            None => return,
        };
        let (x, y) = match axis {
            0 => (at[1], -at[2]),
            1 => (at[0], -at[2]),
            _ => (at[0], -at[1]),
        };
        let (x, y) = match quarter {
            0 => (x, y),
            1 => (-y, x),
            2 => (-x, -y),
            _ => (y, -x),
        };
        let want = [x / 2.0 / sx + u / 2.0, y / 8.0 / sy + v / 8.0];
        match &sf.uvs {
            Some(uv) if uv.len() == 1 => {
                let w = v2(uv[0]);
                check(near(w[0], want[0], 0.01), "u offset, rotation and u scale take their places");
                check(near(w[1], want[1], 0.01), "v offset, rotation and v scale take their places");
            }
            _ => check(false, "a coordinate for every vertex"),
        }
        check(sf.colors.is_none(), "no colour without colour fields");
        reach("end");
    }
}
/// axes and offsets of the bracketed convention
pub fn h_c03_axes() {
    let axis = choose("axis", 3);
    let gs = |n: &str| grid(n, -64, 64, 2);
    let a = [gs("ux"), gs("uy"), gs("uz"), g("uo")];
    let b = [gs("vx"), gs("vy"), gs("vz"), g("vo")];
    let mut f = axis_face(axis, false, AT[axis], "t");
    f.uv = Uv::Valve(a, b);
    f.rot = 30.0;
    let (sx, sy) = ([1.0, -0.5][choose("sx", 2)], [1.0, 4.0][choose("sy", 2)]);
    f.scale = [sx, sy];
    if let Some((s, at)) = one_face(f, axis, AT, Cfg::new().texture("t", 4, 2), None) {
        let sf = match surface(&s, "t") {
            Some(x) => x,
            None => return,
        };
        let dot = |q: &[f32; 4]| q[0] * at[0] + q[1] * at[1] + q[2] * at[2];
        let want = [dot(&a) / 4.0 / sx + a[3] / 4.0, dot(&b) / 2.0 / sy + b[3] / 2.0];
        match &sf.uvs {
            Some(uv) if uv.len() == 1 => {
                let w = v2(uv[0]);
                check(near(w[0], want[0], 0.05), "the first axis, its offset and scale take their places");
                check(near(w[1], want[1], 0.05), "the second axis, its offset and scale take their places");
            }
            _ => check(false, "a coordinate for every vertex"),
        }
        check(close(v3(sf.tangents[0].0), [a[0], a[1], a[2]], 0.001), "the first axis is the tangent");
        reach("end");
    }
}
/// trailing fields with any values
pub fn h_c03_extra() {
    let n = [0, 1, 3, 6][choose("extra", 4)];
    let valve = flag("valve");
    let c = [fl("r", -1.0e6, 1.0e6), fl("g", -1.0e6, 1.0e6), fl("b", -1.0e6, 1.0e6)];
    let mut f = axis_face(2, false, AT[2], "t");
    if valve {
        f.uv = Uv::Valve([1.0, 0.0, 0.0, 0.0], [0.0, -1.0, 0.0, 0.0]);
    }
    let i = |n: &str| it(int(n, 32, i32::MIN as i64, i32::MAX as i64) as i32 as i64);
    match n {
        1 => f.extra = vec![ft(c[0])],
        3 => f.extra = vec![i("contents"), i("flags"), ft(c[0])],
        6 => f.extra = vec![i("contents"), i("flags"), ft(fl("value", -1.0e6, 1.0e6)), ft(c[0]), ft(c[1]), ft(c[2])],
        _ => {}
    }
    if let Some((s, _)) = one_face(f, 2, AT, Cfg::new().texture("t", 4, 2), None) {
        let sf = match surface(&s, "t") {
            Some(x) => x,
            None => return,
        };
        check(close(v3(sf.vertices[0]), AT, E), "trailing fields do not move the face");
        match &sf.uvs {
            Some(uv) => check(near(v2(uv[0])[0], 0.25, 0.001) & near(v2(uv[0])[1], -8.0, 0.001), "trailing fields do not change the mapping"),
            None => check(false, "a coordinate for every vertex"),
        }
        if n == 6 {
            match &sf.colors {
                Some(k) if k.len() == 1 => {
                    check((k[0].r == c[0]) & (k[0].g == c[1]) & (k[0].b == c[2]), "the last three of six fields are the colour");
                    reach("colour");
                }
                _ => check(false, "a colour for every vertex"),
            }
        } else {
            check(sf.colors.is_none(), "no colour without colour fields");
            reach("no colour");
        }
    }
}
/// any texture name, in any case
fn texture(len: usize) {
    let n = 1 + choose("length", len);
    let mut lower = Vec::new();
    let name: Vec<u8> = (0..n)
        .map(|_| {
            let b = un("c", 8, 33, 126) as u8;
            let up = (b >= b'A') & (b <= b'Z');
            lower.push(ite(up, b as u64 + 32, b as u64) as u8);
            b
        })
        .collect();
    hash_mode(1);
    let mut m = Map::new();
    m.class("worldspawn");
    m.open();
    for a in 0..3 {
        m.line(&axis_face(a, false, AT[a], text(&name)).text());
    }
    m.close();
    m.close();
    let c = Cfg::new().texture("a", 4, 4).texture("A", 2, 2).texture("{b", 4, 4).texture("*c1", 4, 4);
    if let Some(s) = scene(&m, c.class("worldspawn", VisualType::Mesh, CollisionType::None)) {
        let known = same(&lower, b"a") | same(&lower, b"{b") | same(&lower, b"*c1");
        let sf = surfaces(&s[0]);
        check(sf.len() == 1, "one surface for one texture");
        if sf.len() != 1 {
            return;
        }
        match &sf[0].texture {
            Some(t) => {
                check(known & same(t.as_bytes(), &lower), "the texture name in lower case");
                match &sf[0].uvs {
                    Some(uv) => check(near(v2(uv[2])[0], 0.25, 0.001), "size of the lower-case texture"),
                    None => check(false, "a coordinate for every vertex"),
                }
                reach("known");
            }
            None => {
                check(!known, "a known texture is found");
                check(sf[0].uvs.is_none(), "no coordinate without texture size");
                reach("unknown");
            }
        }
    }
}
pub fn h_c03_texture() {
    texture(2)
}
pub fn h_c03_texture_deep() {
    texture(3)
}
/// every way of writing fields apart, and of writing numbers
pub fn h_c03_spacing() {
    let valve = flag("valve");
    let spaces = flag("spaces");
    let mut f = axis_face(2, false, AT[2], ["T", "\u{c4}b", "({", "0", "//x"][if spaces { 0 } else { choose("name", 5) }]);
    let lower = ["t", "\u{e4}b", "({", "0", "//x"][["T", "\u{c4}b", "({", "0", "//x"].iter().position(|x| *x == f.tex).unwrap()];
    if valve {
        f.uv = Uv::Valve([1.0, 0.0, 0.0, 2.0], [0.0, -1.0, 0.0, 4.0]);
    } else {
        f = f.uv(2.0, 4.0);
    }
    const NUM: [(&str, f32); 10] = [
        ("1e2", 100.0), ("-.5", -0.5), ("5.", 5.0), ("+4", 4.0), ("00012", 12.0), ("0.1", 0.1), ("1E-3", 0.001), ("-0", 0.0), ("16777217", 16777216.0), ("3.4e38", 3.4e38),
    ];
    let (txt, val) = NUM[if spaces { 0 } else { choose("number", 10) }];
    f.extra = vec!["0".into(), "-1".into(), txt.into(), txt.into(), "0.25".into(), "1".into()];
    let n = f.tokens().len();
    let gap = if spaces { 1 + choose("gap", n) } else { 1 };
    let ws = [" ", "\t", "  ", " \t \t ", "\u{a0} "][if spaces { choose("blank", 5) } else { 0 }];
    if let Some((s, _)) = one_face(f, 2, AT, Cfg::new().texture(lower, 4, 2), Some((gap, ws))) {
        let sf = match surface(&s, lower) {
            Some(x) => x,
            None => return,
        };
        check(close(v3(sf.vertices[0]), AT, E), "the plane is where its points are");
        match &sf.uvs {
            Some(uv) => check(near(v2(uv[0])[0], 0.75, 0.001) & near(v2(uv[0])[1], -6.0, 0.001), "offsets take their places"),
            None => check(false, "a coordinate for every vertex"),
        }
        match &sf.colors {
            Some(k) => check(k[0].r == val && k[0].g == 0.25 && k[0].b == 1.0, "a number is read as written"),
            None => check(false, "a colour for every vertex"),
        }
        reach("end");
    }
}
