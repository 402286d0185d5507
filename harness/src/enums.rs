//! C30: enum codes.
use crate::prelude::*;
use quarchitect::game_data::forge::{ClassType, Metadata};
use quarchitect::game_data::{CollisionType, ComponentType, EntityType, VisualType};
use quarchitect::{Color, Vector3};

fn code<T: Into<i64>>(x: T) -> i64 {
    x.into()
}
/// every i64 in 0..n converts to the value with that code and back
pub fn h_c30_valid() {
    let i = int("code", 64, 0, 2);
    check(code(CollisionType::from(i)) == i, "collision type converts back");
    check(code(ClassType::from(i)) == i, "class type converts back");
    if i <= 1 {
        check(code(VisualType::from(i)) == i, "visual type converts back");
        reach("visual");
    }
    let c = conc(i as u64);
    let ct = CollisionType::from(i);
    check(ct == [CollisionType::None, CollisionType::Convex, CollisionType::Concave][c as usize], "collision kind of its code");
    let cl = ClassType::from(i);
    check(
        match cl {
            ClassType::BaseClass => 0,
            ClassType::PointClass => 1,
            ClassType::SolidClass => 2,
        } == c,
        "class kind of its code",
    );
    if c < 2 {
        check(VisualType::from(i) == [VisualType::None, VisualType::Mesh][c as usize], "visual kind of its code");
    }
    obs("c", c);
}
pub fn h_c30_invalid_collision() {
    let i = int("code", 64, i64::MIN, i64::MAX);
    assume((i < 0) | (i > 2));
    expect_panic(true);
    let x = CollisionType::from(i);
    expect_panic(false);
    obs("kind", code(x) as u64);
    check(false, "an unknown collision code is refused");
}
pub fn h_c30_invalid_visual() {
    let i = int("code", 64, i64::MIN, i64::MAX);
    assume((i < 0) | (i > 1));
    expect_panic(true);
    let x = VisualType::from(i);
    expect_panic(false);
    obs("kind", code(x) as u64);
    check(false, "an unknown visual code is refused");
}
pub fn h_c30_invalid_class() {
    let i = int("code", 64, i64::MIN, i64::MAX);
    assume((i < 0) | (i > 2));
    expect_panic(true);
    let x = ClassType::from(i);
    expect_panic(false);
    obs("kind", code(x) as u64);
    check(false, "an unknown class code is refused");
}
/// codes of all kinds, whatever they carry
pub fn h_c30_codes() {
    check(code(CollisionType::None) == 0, "collision none");
    check(code(CollisionType::Convex) == 1, "collision convex");
    check(code(CollisionType::Concave) == 2, "collision concave");
    check(code(VisualType::None) == 0, "visual none");
    check(code(VisualType::Mesh) == 1, "visual mesh");
    check(code(ClassType::BaseClass) == 0, "base class");
    check(code(ClassType::PointClass) == 1, "point class");
    check(code(ClassType::SolidClass) == 2, "solid class");
    // text of 0..3 arbitrary ASCII characters
    let n = choose("len", 4);
    let mut s = String::new();
    for _ in 0..n {
        s.push(un("c", 8, 0, 127) as u8 as char);
    }
    check(code(EntityType::Placeholder) == 0, "placeholder");
    check(code(EntityType::class(&s)) == 1, "entity class");
    check(code(EntityType::prefab(&s)) == 2, "entity prefab");
    check(code(ComponentType::None) == 0, "no component");
    check(code(ComponentType::Script(s.clone())) == 1, "script");
    let f = fl("f", f32::MIN, f32::MAX);
    let m: i32 = Metadata::Base(vec![s]).into();
    check(m == 0, "base metadata");
    let m: i32 = Metadata::Color(Color::new(f, f, f)).into();
    check(m == 1, "colour metadata");
    let m: i32 = Metadata::Size(Vector3::new(f, f, f), Vector3::new(f, f, f)).into();
    check(m == 2, "size metadata");
}
