//! C26-C28: the text of game definitions.
use crate::prelude::*;
use quarchitect::game_data::forge::{Choice, ClassType, Entity, GameData, Metadata, Property, PropertyData};
use quarchitect::{Color, Vector3};

/// 0..=max arbitrary ASCII characters
fn text(name: &str, max: usize) -> String {
    let n = choose(name, max + 1);
    word(name, n)
}
fn word(name: &str, n: usize) -> String {
    let b: Vec<u8> = (0..n).map(|_| un(name, 8, 1, 127) as u8).collect();
    unsafe { String::from_utf8_unchecked(b) }
}
fn same(a: &str, b: &str) -> bool {
    let (a, b) = (a.as_bytes(), b.as_bytes());
    if a.len() != b.len() {
        return false;
    }
    let mut ok = true;
    for i in 0..a.len() {
        ok &= a[i] == b[i];
    }
    ok
}
fn cat(parts: &[&str]) -> String {
    let mut s = String::new();
    for p in parts {
        s.push_str(p);
    }
    s
}
/// a number that text must state exactly
fn shown(x: f32, s: &str) -> bool {
    match s.parse::<f32>() {
        Ok(y) => (y == x) & ((y.to_bits() ^ x.to_bits()) >> 31 == 0),
        Err(_) => false,
    }
}
fn color_ok(c: &[f32; 3], s: &str) -> bool {
    let p: Vec<&str> = s.split(' ').collect();
    if p.len() != 3 {
        return false;
    }
    let mut ok = true;
    for i in 0..3 {
        match p[i].parse::<i32>() {
            Ok(n) => {
                // the component in 1/255 steps, cut or rounded
                let d = c[i] * 255.0 - n as f32;
                ok &= (n >= 0) & (n <= 255) & (d > -0.6) & (d < 1.0);
            }
            Err(_) => return false,
        }
    }
    ok
}
/// what stands between two texts
fn between<'a>(s: &'a str, a: &str, b: &str) -> Option<&'a str> {
    if s.len() < a.len() + b.len() || !same(&s[..a.len()], a) || !same(&s[s.len() - b.len()..], b) {
        return None;
    }
    Some(&s[a.len()..s.len() - b.len()])
}
fn unit(name: &str) -> f32 {
    fl(name, 0.0, 1.0)
}

/// every kind of property with arbitrary texts and values
fn kinds(max: usize) {
    let (name, short, long) = (text("name", max), text("short", max), text("long", max));
    let kind = choose("kind", 7);
    let head = |ty: &str| cat(&[&name, "(", ty, ") : \"", &short, "\" : "]);
    let tail = cat(&[" : \"", &long, "\""]);
    let get = |d: PropertyData| Property::new(&name, &short, &long, d).to_string();
    match kind {
        0 => {
            let x = int("int", 32, i32::MIN as i64, i32::MAX as i64) as i32;
            let s = get(PropertyData::Integer(x));
            let m = between(&s, &head("integer"), &tail);
            check(m.map_or(false, |m| m.parse::<i32>() == Ok(x)), "layout and value of an integer property");
            reach("integer");
        }
        1 => {
            let x = fl("float", -1.0e9, 1.0e9);
            let s = get(PropertyData::Float(x));
            let m = between(&s, &head("float"), &tail);
            check(m.map_or(false, |m| shown(x, m)), "layout and value of a float property");
            reach("float");
        }
        2 => {
            let v = [fl("x", -1.0e9, 1.0e9), fl("y", -1.0e9, 1.0e9), fl("z", -1.0e9, 1.0e9)];
            let s = get(PropertyData::Vector3(Vector3::new(v[0], v[1], v[2])));
            let m = between(&s, &cat(&[&head("string"), "\""]), &cat(&["\"", &tail]));
            check(m.map_or(false, |m| vector_ok(&v, m, " ")), "layout and value of a vector property");
            reach("vector");
        }
        3 => {
            let x = text("string", max);
            let s = get(PropertyData::String(x.clone()));
            check(same(&s, &cat(&[&head("string"), "\"", &x, "\"", &tail])), "layout and value of a string property");
            reach("string");
        }
        4 => {
            let c = [unit("r"), unit("g"), unit("b")];
            let s = get(PropertyData::Color(Color::new(c[0], c[1], c[2])));
            let m = between(&s, &cat(&[&head("color255"), "\""]), &cat(&["\"", &tail]));
            check(m.map_or(false, |m| color_ok(&c, m)), "layout and value of a colour property");
            reach("color");
        }
        _ => {
            let (d, ty) = if kind == 5 { (PropertyData::TargetSource, "target_source") } else { (PropertyData::TargetDestination, "target_destination") };
            let s = get(d);
            check(same(&s, &cat(&[&head(ty), &tail[1..]])), "layout of a target property");
            reach("target");
        }
    }
}
fn vector_ok(v: &[f32; 3], s: &str, sep: &str) -> bool {
    let p: Vec<&str> = s.split(sep).collect();
    if p.len() != 3 {
        return false;
    }
    let mut ok = true;
    for i in 0..3 {
        ok &= shown(v[i], p[i]);
    }
    ok
}
pub fn h_c26_kinds() {
    kinds(1)
}
pub fn h_c26_kinds_deep() {
    kinds(3)
}
/// numbers whose decimal text is delicate
pub fn h_c26_numbers() {
    const F: [f32; 14] = [
        0.1, 16777216.0, 1.0e-7, 3.4028235e38, -0.0, 0.33333334, 1.0e-40, 123456.79, -2.5, 1.0e10, 0.007, 99999.99, 8388607.5, 1.17549435e-38,
    ];
    const I: [i32; 6] = [0, -1, i32::MIN, i32::MAX, 1000000, -70];
    let x = F[choose("f", 14)];
    let n = I[choose("i", 6)];
    let float = Property::new("f", "s", "l", PropertyData::Float(x)).to_string();
    let m = between(&float, "f(float) : \"s\" : ", " : \"l\"");
    check(m.map_or(false, |m| shown(x, m)), "a float default is stated exactly");
    check(m.map_or(false, |m| m.bytes().all(|c| c.is_ascii_digit() | (c == b'.') | (c == b'-'))), "a float default is plain decimal");
    let int = Property::new("i", "s", "l", PropertyData::Integer(n)).to_string();
    let m = between(&int, "i(integer) : \"s\" : ", " : \"l\"");
    check(m.map_or(false, |m| m.parse::<i32>() == Ok(n)), "an integer default is stated exactly");
    let v = [x, -x, n as f32];
    let vec = Property::new("v", "s", "l", PropertyData::Vector3(Vector3::new(v[0], v[1], v[2]))).to_string();
    let m = between(&vec, "v(string) : \"s\" : \"", "\" : \"l\"");
    check(m.map_or(false, |m| vector_ok(&v, m, " ")), "a vector default is stated exactly");
    obs_s("text", &float);
    obs_s("text", &vec);
    let ch = Choice::float("c", x).to_string();
    let m = between(&ch, "", " : \"c\"");
    check(m.map_or(false, |m| shown(x, m)), "a float choice is stated exactly");
    reach("end");
}
/// colours at and around the 1/255 steps
pub fn h_c26_color_steps() {
    let n = choose("step", 256);
    let c = n as f32 / 255.0;
    let s = Color::new(c, 1.0 - c, c * 0.5).to_string();
    check(color_ok(&[c, 1.0 - c, c * 0.5], &s), "three integers within one step of the colour");
    reach("end");
}

// ---------------------------------------------------------------- C27
enum V {
    I(i32),
    F(f32),
    S(String),
}
fn val(max: usize) -> V {
    match choose("value", 3) {
        0 => V::I(int("int", 32, i32::MIN as i64, i32::MAX as i64) as i32),
        1 => V::F(fl("float", -1.0e9, 1.0e9)),
        _ => V::S(text("string", max)),
    }
}
fn choices(count: usize, max: usize) {
    let n = 1 + choose("choices", count);
    let mut vals = Vec::new();
    let mut names = Vec::new();
    for _ in 0..n {
        vals.push(val(max));
        names.push(text("name", max));
    }
    let def = choose("default", n);
    let list: Vec<Choice> = (0..n)
        .map(|i| match &vals[i] {
            V::I(x) => Choice::integer(&names[i], *x),
            V::F(x) => Choice::float(&names[i], *x),
            V::S(x) => Choice::string(&names[i], x),
        })
        .collect();
    let (pn, sd) = (text("pname", max), text("short", max));
    let s = Property::new(&pn, &sd, "long", PropertyData::Choices(list, def as i32)).to_string();
    let head = cat(&[&pn, "(choices) : \"", &sd, "\" : \""]);
    let mut want = head;
    let mut num = |v: &V, quoted: bool, want: &mut String| match v {
        V::I(x) => want.push_str(&it(*x as i64)),
        V::F(x) => {
            if is_sym(x.to_bits() as u64) {
                want.push_str(&ft(*x))
            } else {
                want.push_str(&format!("{}", x))
            }
        }
        V::S(x) => {
            if quoted {
                want.push('"');
            }
            want.push_str(x);
            if quoted {
                want.push('"');
            }
        }
    };
    num(&vals[def], false, &mut want);
    want.push_str("\" =\n\t[\n");
    for i in 0..n {
        want.push_str("\t\t");
        num(&vals[i], true, &mut want);
        want.push_str(" : \"");
        want.push_str(&names[i]);
        want.push_str("\"\n");
    }
    want.push_str("\t]");
    check(same(&s, &want), "default value and every choice in order");
    reach("end");
}
pub fn h_c27_choices() {
    choices(2, 1)
}
pub fn h_c27_choices_deep() {
    choices(3, 1)
}
fn flags(n: usize, def: i32, names: &[String]) {
    let pn = "fl".to_string();
    let s = Property::new(&pn, "short", "long", PropertyData::Flags(names.to_vec(), def)).to_string();
    // line by line: bit, name, mark
    let body = match between(&s, "fl(flags) =\n\t[\n", "\t]") {
        Some(b) => b,
        None => {
            check(false, "layout of a flags property");
            return;
        }
    };
    let mut at = 0;
    let b = body.as_bytes();
    for i in 0..n {
        let left = cat(&["\t\t", &format!("{}", 1u64 << i), " : \"", &names[i], "\" : "]);
        if at + left.len() + 2 > b.len() {
            check(false, "every flag is listed");
            return;
        }
        check(same(&body[at..at + left.len()], &left), "value and name of every flag in order");
        at += left.len();
        let mut end = at;
        while end < b.len() && b[end] != b'\n' {
            end += 1;
        }
        let set = ((def as u32 >> i) & 1) as i32;
        check(body[at..end].parse::<i32>().map_or(false, |m| m == set), "exactly the flags of the default are marked");
        check(end < b.len(), "one flag per line");
        at = end + 1;
    }
    check(at == b.len(), "no flag beyond the list");
}
/// long lists of choices, some of them alike
pub fn h_c27_choices_many() {
    let n = 1 + choose("choices", 12);
    let def = choose("default", n);
    let way = choose("way", 3);
    let v = |i: usize| match (i + way) % 3 {
        0 => V::I(int("int", 32, -1000, 100000) as i32),
        1 => V::F([0.5, -2.0, 1e-3, 7.0][i % 4]),
        _ => V::S(format!("{}{}", if i % 2 == 0 { "value" } else { "" }, i % 5)),
    };
    let vals: Vec<V> = (0..n).map(v).collect();
    let names: Vec<String> = (0..n).map(|i| format!("name {}", i % 7)).collect();
    let list: Vec<Choice> = (0..n)
        .map(|i| match &vals[i] {
            V::I(x) => Choice::integer(&names[i], *x),
            V::F(x) => Choice::float(&names[i], *x),
            V::S(x) => Choice::string(&names[i], x),
        })
        .collect();
    let s = Property::new("pn", "sd", "long", PropertyData::Choices(list, def as i32)).to_string();
    let num = |v: &V, q: &str| match v {
        V::I(x) => it(*x as i64),
        V::F(x) => format!("{}", x),
        V::S(x) => cat(&[q, x, q]),
    };
    let mut want = cat(&["pn(choices) : \"sd\" : \"", &num(&vals[def], ""), "\" =\n\t[\n"]);
    for i in 0..n {
        want.push_str(&cat(&["\t\t", &num(&vals[i], "\""), " : \"", &names[i], "\"\n"]));
    }
    want.push_str("\t]");
    check(same(&s, &want), "default value and every choice in order");
    reach("end");
}
/// few flags, all 2^32 defaults
pub fn h_c27_flags() {
    let n = choose("flags", 5);
    let def = int("default", 32, i32::MIN as i64, i32::MAX as i64) as i32;
    let names: Vec<String> = (0..n).map(|_| text("name", 1)).collect();
    flags(n, def, &names);
    reach("end");
}
/// up to 31 flags with one bit set or cleared
pub fn h_c27_flags_many() {
    let n = choose("flags", 32);
    let bit = choose("bit", 32);
    let def = if flag("clear") { !(1i32.wrapping_shl(bit as u32)) } else { 1i32.wrapping_shl(bit as u32) };
    let names: Vec<String> = (0..n).map(|i| format!("n{}", i)).collect();
    flags(n, def, &names);
    reach("end");
}
pub fn h_c27_flags_deep() {
    let n = choose("flags", 9);
    let def = int("default", 32, i32::MIN as i64, i32::MAX as i64) as i32;
    let names: Vec<String> = (0..n).map(|i| word("name", i % 2)).collect();
    flags(n, def, &names);
    reach("end");
}

// ---------------------------------------------------------------- C28
fn meta(which: usize, want: &mut String) -> Metadata {
    match which {
        0 => {
            let n = 1 + choose("bases", 3);
            let b: Vec<String> = (0..n).map(|_| word("base", 1)).collect();
            want.push_str("base(");
            for i in 0..n {
                if i > 0 {
                    want.push_str(", ");
                }
                want.push_str(&b[i]);
            }
            want.push(')');
            Metadata::base(b)
        }
        1 => {
            want.push_str("color(51 102 153)");
            Metadata::color(Color::new(0.2, 0.4, 0.6))
        }
        _ => {
            let f: Vec<f32> = (0..6).map(|_| fl("size", -1.0e6, 1.0e6)).collect();
            want.push_str("size(");
            for i in 0..6 {
                if i > 0 {
                    want.push_str(", ");
                }
                want.push_str(&show(f[i]));
            }
            want.push(')');
            Metadata::size(Vector3::new(f[0], f[1], f[2]), Vector3::new(f[3], f[4], f[5]))
        }
    }
}
fn show(x: f32) -> String {
    if is_sym(x.to_bits() as u64) {
        ft(x)
    } else {
        format!("{}", x)
    }
}
fn class(metas: usize, props: usize, max: usize, want: &mut String) -> Entity {
    let (ct, tag) = match choose("class", 3) {
        0 => (ClassType::BaseClass, "@BaseClass "),
        1 => (ClassType::PointClass, "@PointClass "),
        _ => (ClassType::SolidClass, "@SolidClass "),
    };
    want.push_str(tag);
    let mut md = Vec::new();
    for _ in 0..choose("metas", metas + 1) {
        md.push(meta(choose("meta", 3), want));
        want.push(' ');
    }
    let (name, desc) = (text("class_name", max), text("description", max));
    want.push_str(&cat(&["= ", &name, " : \"", &desc, "\"\n[\n"]));
    let mut pr = Vec::new();
    for i in 0..choose("props", props + 1) {
        let pn = word("prop", 1);
        let x = int("int", 32, i32::MIN as i64, i32::MAX as i64) as i32;
        if i % 2 == 0 {
            want.push_str(&cat(&["\t", &pn, "(integer) : \"s\" : ", &it(x as i64), " : \"l\"\n"]));
            pr.push(Property::new(&pn, "s", "l", PropertyData::Integer(x)));
        } else {
            want.push_str(&cat(&["\t", &pn, "(target_source) : \"s\" : : \"l\"\n"]));
            pr.push(Property::new(&pn, "s", "l", PropertyData::TargetSource));
        }
    }
    want.push(']');
    Entity::new(ct, md, &name, &desc, pr)
}
pub fn h_c28_class() {
    let mut want = String::new();
    let e = class(2, 2, 1, &mut want);
    check(same(&e.to_string(), &want), "the class text has all its parts in order");
    reach("end");
}
pub fn h_c28_class_deep() {
    let mut want = String::new();
    let e = class(3, 3, 2, &mut want);
    check(same(&e.to_string(), &want), "the class text has all its parts in order");
    reach("end");
}
/// long lists of everything, with equal members
pub fn h_c28_many() {
    let n = 1 + choose("length", 9);
    let way = choose("way", 3);
    let x = int("int", 32, i32::MIN as i64, i32::MAX as i64) as i32;
    let mut want = String::from("// g\n\n");
    let inc: Vec<String> = (0..n).map(|i| format!("inc{}.fgd", (i * (way + 1)) % 6)).collect();
    for i in &inc {
        want.push_str(&cat(&["@include \"", i, "\"\n"]));
    }
    want.push('\n');
    let mut defs = Vec::new();
    for i in 0..n {
        let (ct, tag) = [(ClassType::BaseClass, "@BaseClass "), (ClassType::PointClass, "@PointClass "), (ClassType::SolidClass, "@SolidClass ")][(i + way) % 3].clone();
        want.push_str(tag);
        let mut md = Vec::new();
        for j in 0..(i + way) % 5 {
            match (i + j) % 3 {
                0 => {
                    let b: Vec<String> = (0..1 + (i + j) % 6).map(|k| format!("B{}", (k * 5 + way) % 4)).collect();
                    want.push_str(&cat(&["base(", &b.join(", "), ") "]));
                    md.push(Metadata::base(b));
                }
                1 => {
                    want.push_str("color(51 102 153) ");
                    md.push(Metadata::color(Color::new(0.2, 0.4, 0.6)));
                }
                _ => {
                    want.push_str(&cat(&["size(-1, -2, -3, 4, 5, ", &format!("{}", j), ") "]));
                    md.push(Metadata::size(Vector3::new(-1.0, -2.0, -3.0), Vector3::new(4.0, 5.0, j as f32)));
                }
            }
        }
        let name = format!("class{}", i * way);
        want.push_str(&cat(&["= ", &name, " : \"d\"\n[\n"]));
        let mut pr = Vec::new();
        for j in 0..(i * 3 + way) % 8 {
            let pn = format!("p{}", j % 6);
            if j % 3 == 1 {
                want.push_str(&cat(&["\t", &pn, "(target_source) : \"s\" : : \"l\"\n"]));
                pr.push(Property::new(&pn, "s", "l", PropertyData::TargetSource));
            } else {
                let y = if i == 0 { x } else { j as i32 };
                want.push_str(&cat(&["\t", &pn, "(integer) : \"s\" : ", &it(y as i64), " : \"l\"\n"]));
                pr.push(Property::new(&pn, "s", "l", PropertyData::Integer(y)));
            }
        }
        want.push_str("]\n\n");
        defs.push(Entity::new(ct, md, &name, "d", pr));
    }
    let g = GameData::new("g".to_string(), inc, defs);
    check(same(&g.to_string(), &want), "the file text has all its parts in order");
    reach("end");
}
fn game(want: &mut String) -> GameData {
    let name = text("game", 1);
    want.push_str(&cat(&["// ", &name, "\n\n"]));
    let mut inc = Vec::new();
    for _ in 0..choose("includes", 4) {
        let i = word("include", 1);
        want.push_str(&cat(&["@include \"", &i, "\"\n"]));
        inc.push(i);
    }
    want.push('\n');
    let mut defs = Vec::new();
    for _ in 0..choose("classes", 4) {
        let n = word("name", 1);
        // equal names are not the same class
        want.push_str(&cat(&["@SolidClass = ", &n, " : \"d\"\n[\n\ta(integer) : \"s\" : 7 : \"l\"\n]\n\n"]));
        defs.push(Entity::new(ClassType::SolidClass, vec![], &n, "d", vec![Property::new("a", "s", "l", PropertyData::Integer(7))]));
    }
    GameData::new(name, inc, defs)
}
pub fn h_c28_file() {
    let mut want = String::new();
    let g = game(&mut want);
    check(same(&g.to_string(), &want), "all includes and classes in order");
    reach("end");
}
/// saving, also over a longer file, and failing to save
pub fn h_c28_save() {
    let mut want = String::new();
    let g = game(&mut want);
    match choose("where", 4) {
        0 => {
            let p = path("new.fgd");
            check(g.save(p.clone()).is_ok(), "saving succeeds");
            check(same_b(&std::fs::read(&p).unwrap_or_default(), want.as_bytes()), "the file holds exactly the text");
            reach("new");
        }
        1 => {
            let p = put("old.fgd", &[b'x'; 400]);
            check(g.save(p.clone()).is_ok(), "saving succeeds");
            check(same_b(&std::fs::read(&p).unwrap_or_default(), want.as_bytes()), "an older file is replaced");
            reach("old");
        }
        2 => check(g.save(path("missing/a.fgd")).is_err(), "a file that cannot be created is reported"),
        _ => {
            check(g.save("/dev/full".to_string()).is_err(), "a full disk is reported");
            reach("full");
        }
    }
}
fn same_b(a: &[u8], b: &[u8]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let mut ok = true;
    for i in 0..a.len() {
        ok &= a[i] == b[i];
    }
    ok
}
