//! P11: every exportable value survives `to_value` and `from_value`, and values of another kind are refused.

use crate::engine::*;
use crate::ensure;
use glam::*;
use node_tree::prelude::*;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::hash::Hash;
use std::net::{IpAddr, Ipv4Addr, Ipv6Addr};
use std::path::PathBuf;
use std::rc::Rc;
use std::sync::{Arc, Mutex};
use std::time::Duration;
use toml_edit::{Array, Datetime, DocumentMut, InlineTable, Value};

/// What a reader of a type has to do with a value.
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug)]
pub enum Admits {
    No,
    /// The documentation says nothing.
    Open,
    Yes,
}
use Admits::*;

fn yes(b: bool) -> Admits {
    if b { Yes } else { No }
}

/// An exportable type that can be generated and compared.
pub trait Val: Exportable + Sized + 'static {
    fn make(c: &mut Ctx, depth: u32) -> Self;
    /// Whether two values are the same, not only equal: bits of floats, the text of paths, ...
    fn same(&self, o: &Self) -> bool;
    fn admits(v: &Value) -> Admits;
    fn show(&self) -> String;
}

fn int(v: &Value) -> Option<i64> {
    match v { Value::Integer(i) => Some(*i.value()), _ => None }
}
fn float(v: &Value) -> Option<f64> {
    match v { Value::Float(i) => Some(*i.value()), _ => None }
}
fn text(v: &Value) -> Option<&str> {
    match v { Value::String(i) => Some(i.value()), _ => None }
}
fn arr(v: &Value) -> Option<Vec<&Value>> {
    match v { Value::Array(a) => Some(a.iter().collect()), _ => None }
}
fn all<'a>(it: impl Iterator<Item = &'a Value>, f: impl Fn(&Value) -> Admits) -> Admits {
    it.map(f).min().unwrap_or(Yes)
}
fn same_f64(a: f64, b: f64) -> bool {
    a.to_bits() == b.to_bits() || (a.is_nan() && b.is_nan())
}
fn same_f32(a: f32, b: f32) -> bool {
    a.to_bits() == b.to_bits() || (a.is_nan() && b.is_nan())
}

pub fn a_char(c: &mut Ctx) -> char {
    match c.draw(6) {
        0 => (b'a' + c.draw(4) as u8) as char,
        1 => char::from_u32(c.draw(128) as u32).unwrap(),
        2 => *c.pick(&['"', '\\', '\'', '\n', '\r', '\t', '\0', '.', '=', '#', '[', ']', '{', '}', ' ', '\u{7f}', '/']),
        3 => *c.pick(&['é', 'ß', '²', '٣', '漢', '\u{85}', '\u{2028}', '\u{feff}', '\u{301}', '\u{200d}', '🦀', '\u{10ffff}']),
        4 => char::from_u32(c.draw(0xD800) as u32).unwrap(),
        _ => char::from_u32(0xE000 + c.draw(0x110000 - 0xE000) as u32).unwrap(),
    }
}
pub fn a_string(c: &mut Ctx, max: usize) -> String {
    let n = c.below(max + 1);
    (0..n).map(|_| a_char(c)).collect()
}
/// A text, which once in a while is longer than any buffer.
fn a_text(c: &mut Ctx) -> String {
    let s = a_string(c, 6);
    if !s.is_empty() && c.chance(1, 1500) {
        c.label("text of many kilobytes");
        let n = *c.pick(&[300, 5_000, 70_000, 300_000]);
        // A known finding is kept away from: see `probe_quotes` in p_scene.rs.
        let s = if s.chars().all(|x| x == '"') || s.chars().all(|x| x == '\'') { s + "-" } else { s };
        return s.repeat(n / s.len() + 1);
    }
    s
}
pub fn an_f64(c: &mut Ctx) -> f64 {
    match c.draw(8) {
        0 => c.draw(10) as f64,
        1 => -(c.draw(10) as f64),
        2 => c.draw(1000) as f64 / 8.0,
        3 => *c.pick(&[0.1, 1e300, -1e-300, f64::MAX, f64::MIN, f64::MIN_POSITIVE, f64::EPSILON, 5e-324, f64::INFINITY, f64::NEG_INFINITY, f64::NAN, -0.0, 1e16, 1e15, 123456789012345680.0]),
        4 => (c.bits() as i64) as f64,
        5 => (c.draw(1 << 53) as f64) / 1e9,
        _ => f64::from_bits(c.draw(u64::MAX)),
    }
}
pub fn an_f32(c: &mut Ctx) -> f32 {
    match c.draw(6) {
        0 => c.draw(10) as f32,
        1 => -(c.draw(1000) as f32) / 10.0,
        2 => *c.pick(&[0.1, f32::MAX, f32::MIN, f32::MIN_POSITIVE, 1e-45, f32::INFINITY, f32::NEG_INFINITY, f32::NAN, -0.0, 16777217.0]),
        3 => (c.bits() as i64) as f32,
        _ => f32::from_bits(c.draw(1 << 32) as u32),
    }
}

macro_rules! ints {
    ($($t:ty),+) => {$(
        impl Val for $t {
            fn make(c: &mut Ctx, _: u32) -> Self { c.bits() as $t }
            fn same(&self, o: &Self) -> bool { self == o }
            fn admits(v: &Value) -> Admits {
                match int(v) {
                    None => No,
                    Some(i) => if <$t>::try_from(i).is_ok() { Yes } else { Open },
                }
            }
            fn show(&self) -> String { format!("{self:?}") }
        }
    )+};
}
ints!(u8, u16, u32, u64, i8, i16, i32, i64);

macro_rules! plain {
    ($($t:ty: $c:ident => $make:expr, $v:ident => $admits:expr;)+) => {$(
        impl Val for $t {
            fn make($c: &mut Ctx, _: u32) -> Self { $make }
            fn same(&self, o: &Self) -> bool { self == o }
            fn admits($v: &Value) -> Admits { $admits }
            fn show(&self) -> String { format!("{self:?}") }
        }
    )+};
}
fn v4(c: &mut Ctx) -> Ipv4Addr {
    Ipv4Addr::from(c.bits() as u32)
}
fn v6(c: &mut Ctx) -> Ipv6Addr {
    match c.draw(3) {
        0 => Ipv6Addr::from(c.bits() as u128),
        1 => v4(c).to_ipv6_mapped(),
        _ => {
            let mut s = [0u16; 8];
            for x in &mut s {
                if c.flag() {
                    *x = c.bits() as u16;
                }
            }
            Ipv6Addr::from(s)
        }
    }
}
plain! {
    bool: c => c.flag(), v => yes(matches!(v, Value::Boolean(_)));
    char: c => a_char(c), v => yes(text(v).is_some_and(|s| s.chars().count() == 1));
    String: c => a_text(c), v => yes(text(v).is_some());
    Ipv4Addr: c => v4(c), v => yes(text(v).is_some_and(|s| s.parse::<Ipv4Addr>().is_ok()));
    Ipv6Addr: c => v6(c), v => yes(text(v).is_some_and(|s| s.parse::<Ipv6Addr>().is_ok()));
    IpAddr: c => if c.flag() { v6(c).into() } else { v4(c).into() }, v => yes(text(v).is_some_and(|s| s.parse::<IpAddr>().is_ok()));
}
impl Val for f64 {
    fn make(c: &mut Ctx, _: u32) -> Self { an_f64(c) }
    fn same(&self, o: &Self) -> bool { same_f64(*self, *o) }
    fn admits(v: &Value) -> Admits { yes(float(v).is_some()) }
    fn show(&self) -> String { format!("{self:?}") }
}
impl Val for f32 {
    fn make(c: &mut Ctx, _: u32) -> Self { an_f32(c) }
    fn same(&self, o: &Self) -> bool { same_f32(*self, *o) }
    fn admits(v: &Value) -> Admits { yes(float(v).is_some()) }
    fn show(&self) -> String { format!("{self:?}") }
}
impl Val for PathBuf {
    fn make(c: &mut Ctx, _: u32) -> Self { PathBuf::from(a_string(c, 6)) }
    fn same(&self, o: &Self) -> bool { self.as_os_str() == o.as_os_str() }
    fn admits(v: &Value) -> Admits { yes(text(v).is_some()) }
    fn show(&self) -> String { format!("{self:?}") }
}
impl Val for NodePath {
    fn make(c: &mut Ctx, _: u32) -> Self {
        let n = c.below(5);
        let mut s = String::new();
        if c.flag() {
            s.push('/');
        }
        for i in 0..n {
            if i > 0 {
                s.push('/');
            }
            match c.draw(4) {
                0 => s += "..",
                1 => s.push('.'),
                _ => s += &a_string(c, 3),
            }
        }
        NodePath::from_str(&s)
    }
    fn same(&self, o: &Self) -> bool { self == o && self.clone().to_string() == o.clone().to_string() }
    fn admits(v: &Value) -> Admits { yes(text(v).is_some()) }
    fn show(&self) -> String { self.clone().to_string() }
}
impl Val for Duration {
    fn make(c: &mut Ctx, _: u32) -> Self {
        match c.draw(5) {
            0 => Duration::from_millis(c.draw(10_000)),
            1 => Duration::new(c.bits(), 0),
            2 => Duration::new(c.draw(1 << 20), c.draw(1_000_000_000) as u32),
            3 => Duration::from_nanos(c.bits()),
            _ => Duration::new(c.bits(), *c.pick(&[0, 1, 500_000_000, 999_999_999])),
        }
    }
    fn same(&self, o: &Self) -> bool { self == o }
    fn admits(v: &Value) -> Admits {
        match v {
            // Negative, infinite and overflowing times are no durations.
            Value::Float(f) => yes(Duration::try_from_secs_f64(*f.value()).is_ok()),
            Value::Array(_) => Open,
            _ => No,
        }
    }
    fn show(&self) -> String { format!("{self:?}") }
}
fn datetime(c: &mut Ctx) -> Datetime {
    use toml_edit::{Date, Offset, Time};
    let date = Date { year: c.draw(10000) as u16, month: 1 + c.draw(12) as u8, day: 1 + c.draw(28) as u8 };
    let nanosecond = match c.draw(3) { 0 => 0, 1 => c.draw(1000) as u32 * 1_000_000, _ => c.draw(1_000_000_000) as u32 };
    let time = Time { hour: c.draw(24) as u8, minute: c.draw(60) as u8, second: c.draw(60) as u8, nanosecond };
    let offset = match c.draw(3) {
        0 => None,
        1 => Some(Offset::Z),
        _ => Some(Offset::Custom { minutes: c.draw(1439 * 2 + 1) as i16 - 1439 }),
    };
    match c.draw(3) {
        0 => Datetime { date: Some(date), time: None, offset: None },
        1 => Datetime { date: None, time: Some(time), offset: None },
        _ => Datetime { date: Some(date), time: Some(time), offset },
    }
}
impl Val for Datetime {
    fn make(c: &mut Ctx, _: u32) -> Self { datetime(c) }
    fn same(&self, o: &Self) -> bool { self == o }
    fn admits(v: &Value) -> Admits { yes(matches!(v, Value::Datetime(_))) }
    fn show(&self) -> String { self.to_string() }
}

impl<T: Val> Val for Option<T> {
    fn make(c: &mut Ctx, d: u32) -> Self { if c.draw(3) > 0 { Some(T::make(c, d)) } else { None } }
    fn same(&self, o: &Self) -> bool {
        match (self, o) { (None, None) => true, (Some(a), Some(b)) => a.same(b), _ => false }
    }
    fn admits(v: &Value) -> Admits {
        match v {
            Value::InlineTable(t) => match t.get("value") {
                Some(x) => T::admits(x).min(if t.len() == 1 { Yes } else { Open }),
                None => if t.is_empty() { Yes } else { Open },
            },
            _ => No,
        }
    }
    fn show(&self) -> String { match self { None => "None".into(), Some(x) => format!("Some({})", x.show()) } }
}

fn count(c: &mut Ctx, depth: u32) -> usize {
    let max = if c.thorough { 6 } else { 4 };
    if depth < 2 && c.chance(1, 1000) {
        c.label("hundreds of elements");
        return c.range(30, 400);
    }
    c.below(if depth > 2 { 2 } else { max })
}
fn list<'a, T: Val>(it: impl Iterator<Item = &'a T>) -> String {
    format!("[{}]", it.map(|x| x.show()).collect::<Vec<_>>().join(", "))
}

impl<T: Val> Val for Vec<T> {
    fn make(c: &mut Ctx, d: u32) -> Self { (0..count(c, d)).map(|_| T::make(c, d + 1)).collect() }
    fn same(&self, o: &Self) -> bool { self.len() == o.len() && self.iter().zip(o).all(|(a, b)| a.same(b)) }
    fn admits(v: &Value) -> Admits { arr(v).map_or(No, |a| all(a.into_iter(), T::admits)) }
    fn show(&self) -> String { list(self.iter()) }
}
impl<const N: usize, T: Val> Val for [T; N] {
    fn make(c: &mut Ctx, d: u32) -> Self { std::array::from_fn(|_| T::make(c, d + 1)) }
    fn same(&self, o: &Self) -> bool { self.iter().zip(o).all(|(a, b)| a.same(b)) }
    fn admits(v: &Value) -> Admits { arr(v).map_or(No, |a| all(a.iter().copied(), T::admits).min(yes(a.len() == N))) }
    fn show(&self) -> String { list(self.iter()) }
}
impl<T: Val + Hash + Eq> Val for HashSet<T> {
    fn make(c: &mut Ctx, d: u32) -> Self { (0..count(c, d)).map(|_| T::make(c, d + 1)).collect() }
    fn same(&self, o: &Self) -> bool { self.len() == o.len() && self.iter().all(|a| o.iter().any(|b| a.same(b))) }
    fn admits(v: &Value) -> Admits { arr(v).map_or(No, |a| all(a.into_iter(), T::admits)) }
    fn show(&self) -> String {
        let mut l: Vec<String> = self.iter().map(|x| x.show()).collect();
        l.sort();
        format!("{{{}}}", l.join(", "))
    }
}
impl<T: Val + Ord> Val for BTreeSet<T> {
    fn make(c: &mut Ctx, d: u32) -> Self { (0..count(c, d)).map(|_| T::make(c, d + 1)).collect() }
    fn same(&self, o: &Self) -> bool { self.len() == o.len() && self.iter().zip(o).all(|(a, b)| a.same(b)) }
    fn admits(v: &Value) -> Admits { arr(v).map_or(No, |a| all(a.into_iter(), T::admits)) }
    fn show(&self) -> String { list(self.iter()) }
}
fn one_char(k: &str) -> bool {
    k.chars().count() == 1
}
macro_rules! maps {
    ($($m:ident, $k:ty, $key:expr, $ok:expr;)+) => {$(
        impl<V: Val> Val for $m<$k, V> {
            fn make(c: &mut Ctx, d: u32) -> Self {
                let key: fn(&mut Ctx) -> $k = $key;
                (0..count(c, d)).map(|_| (key(c), V::make(c, d + 1))).collect()
            }
            fn same(&self, o: &Self) -> bool {
                self.len() == o.len() && self.iter().all(|(k, v)| o.get(k).is_some_and(|w| v.same(w)))
            }
            fn admits(v: &Value) -> Admits {
                let ok: fn(&str) -> bool = $ok;
                match v {
                    Value::InlineTable(t) => t.iter().map(|(k, v)| yes(ok(k)).min(V::admits(v))).min().unwrap_or(Yes),
                    _ => No,
                }
            }
            fn show(&self) -> String {
                let mut l: Vec<String> = self.iter().map(|(k, v)| format!("{k:?}: {}", v.show())).collect();
                l.sort();
                format!("{{{}}}", l.join(", "))
            }
        }
    )+};
}
maps! {
    HashMap, char, |c| a_char(c), one_char;
    HashMap, String, |c| a_string(c, 4), |_| true;
    BTreeMap, char, |c| a_char(c), one_char;
    BTreeMap, String, |c| a_string(c, 4), |_| true;
}
macro_rules! boxes {
    ($($b:ident),+) => {$(
        impl<T: Val> Val for $b<T> {
            fn make(c: &mut Ctx, d: u32) -> Self { $b::new(T::make(c, d)) }
            fn same(&self, o: &Self) -> bool { (**self).same(&**o) }
            fn admits(v: &Value) -> Admits { T::admits(v) }
            fn show(&self) -> String { (**self).show() }
        }
    )+};
}
boxes!(Box, Rc, Arc);
impl<T: Val> Val for Mutex<T> {
    fn make(c: &mut Ctx, d: u32) -> Self { Mutex::new(T::make(c, d)) }
    fn same(&self, o: &Self) -> bool { self.lock().unwrap().same(&*o.lock().unwrap()) }
    fn admits(v: &Value) -> Admits { T::admits(v) }
    fn show(&self) -> String { self.lock().unwrap().show() }
}
macro_rules! tuples {
    ($(($n:literal $($t:ident $i:tt),+))+) => {$(
        impl<$($t: Val),+> Val for ($($t,)+) {
            fn make(c: &mut Ctx, d: u32) -> Self { ($($t::make(c, d + 1),)+) }
            fn same(&self, o: &Self) -> bool { $(self.$i.same(&o.$i))&&+ }
            fn admits(v: &Value) -> Admits {
                match arr(v) {
                    Some(a) if a.len() == $n => [$($t::admits(a[$i])),+].into_iter().min().unwrap(),
                    _ => No,
                }
            }
            fn show(&self) -> String { format!("({})", [$(self.$i.show()),+].join(", ")) }
        }
    )+};
}
tuples! {
    (1 A 0)
    (2 A 0, B 1)
    (3 A 0, B 1, C 2)
    (4 A 0, B 1, C 2, D 3)
    (5 A 0, B 1, C 2, D 3, E 4)
    (6 A 0, B 1, C 2, D 3, E 4, F 5)
    (7 A 0, B 1, C 2, D 3, E 4, F 5, G 6)
    (8 A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7)
    (9 A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8)
    (10 A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8, J 9)
}

// The vectors, matrices and transformations of glam: arrays of their components, or tables of them.
macro_rules! glam_vec {
    ($($t:ident [$e:ty; $n:literal];)+) => {$(
        impl Val for $t {
            fn make(c: &mut Ctx, _: u32) -> Self { $t::from_array(std::array::from_fn(|_| <$e as Val>::make(c, 9))) }
            fn same(&self, o: &Self) -> bool { self.to_array().iter().zip(o.to_array().iter()).all(|(a, b)| a.same(b)) }
            fn admits(v: &Value) -> Admits { <[$e; $n] as Val>::admits(v) }
            fn show(&self) -> String { format!("{self:?}") }
        }
    )+};
}
glam_vec! {
    Vec2 [f32; 2]; Vec3 [f32; 3]; Vec3A [f32; 3]; Vec4 [f32; 4]; Quat [f32; 4];
    DVec2 [f64; 2]; DVec3 [f64; 3]; DVec4 [f64; 4]; DQuat [f64; 4];
    U8Vec2 [u8; 2]; U8Vec3 [u8; 3]; U8Vec4 [u8; 4];
    I8Vec2 [i8; 2]; I8Vec3 [i8; 3]; I8Vec4 [i8; 4];
    U16Vec2 [u16; 2]; U16Vec3 [u16; 3]; U16Vec4 [u16; 4];
    I16Vec2 [i16; 2]; I16Vec3 [i16; 3]; I16Vec4 [i16; 4];
    UVec2 [u32; 2]; UVec3 [u32; 3]; UVec4 [u32; 4];
    IVec2 [i32; 2]; IVec3 [i32; 3]; IVec4 [i32; 4];
    U64Vec2 [u64; 2]; U64Vec3 [u64; 3]; U64Vec4 [u64; 4];
    I64Vec2 [i64; 2]; I64Vec3 [i64; 3]; I64Vec4 [i64; 4];
}
macro_rules! glam_bool {
    ($($t:ident $n:literal;)+) => {$(
        impl Val for $t {
            fn make(c: &mut Ctx, _: u32) -> Self { $t::from_array(std::array::from_fn(|_| c.flag())) }
            fn same(&self, o: &Self) -> bool { self == o }
            fn admits(v: &Value) -> Admits { <[bool; $n] as Val>::admits(v) }
            fn show(&self) -> String { format!("{self:?}") }
        }
    )+};
}
glam_bool! { BVec2 2; BVec3 3; BVec4 4; }
macro_rules! glam_mat {
    ($($t:ident $col:ident $e:ty, $n:literal, $all:literal;)+) => {$(
        impl Val for $t {
            fn make(c: &mut Ctx, _: u32) -> Self { $t::from_cols_array(&std::array::from_fn::<_, $all, _>(|_| <$e as Val>::make(c, 9))) }
            fn same(&self, o: &Self) -> bool { self.to_cols_array().iter().zip(o.to_cols_array().iter()).all(|(a, b)| a.same(b)) }
            fn admits(v: &Value) -> Admits { <[$col; $n] as Val>::admits(v) }
            fn show(&self) -> String { format!("{self:?}") }
        }
    )+};
}
glam_mat! {
    Mat2 Vec2 f32, 2, 4; Mat3 Vec3 f32, 3, 9; Mat3A Vec3A f32, 3, 9; Mat4 Vec4 f32, 4, 16;
    DMat2 DVec2 f64, 2, 4; DMat3 DVec3 f64, 3, 9; DMat4 DVec4 f64, 4, 16;
}
macro_rules! glam_affine {
    ($($t:ident $e:ty, $all:literal;)+) => {$(
        impl Val for $t {
            fn make(c: &mut Ctx, _: u32) -> Self { $t::from_cols_array(&std::array::from_fn::<_, $all, _>(|_| <$e as Val>::make(c, 9))) }
            fn same(&self, o: &Self) -> bool { self.to_cols_array().iter().zip(o.to_cols_array().iter()).all(|(a, b)| a.same(b)) }
            // A table of parts, whose names are the library's own.
            fn admits(v: &Value) -> Admits { match v { Value::InlineTable(t) if !t.is_empty() => Open, _ => No } }
            fn show(&self) -> String { format!("{self:?}") }
        }
    )+};
}
glam_affine! { Affine2 f32, 6; Affine3A f32, 12; DAffine2 f64, 6; DAffine3 f64, 12; }

/// Any TOML value.
pub fn any_value(c: &mut Ctx, depth: u32) -> Value {
    match c.draw(if depth > 2 { 5 } else { 7 }) {
        0 => Value::from(c.bits() as i64),
        1 => Value::from(a_string(c, 4)),
        2 => Value::from(an_f64(c)),
        3 => Value::from(c.flag()),
        4 => Value::from(datetime(c)),
        5 => Value::Array((0..c.below(4)).map(|_| any_value(c, depth + 1)).collect::<Array>()),
        _ => {
            let mut t = InlineTable::new();
            for _ in 0..c.below(3) {
                let k = match c.draw(3) { 0 => "value".to_string(), 1 => a_char(c).to_string(), _ => a_string(c, 3) };
                t.insert(&k, any_value(c, depth + 1));
            }
            Value::InlineTable(t)
        }
    }
}

/// A value that is like the given one, but for a change somewhere in it.
pub fn mutate(c: &mut Ctx, v: &Value, depth: u32) -> Value {
    // Go down into containers, most of the time.
    if depth < 6 && c.draw(3) > 0 {
        match v {
            Value::Array(a) if !a.is_empty() => {
                let i = c.below(a.len());
                let mut out: Vec<Value> = a.iter().cloned().collect();
                out[i] = mutate(c, &out[i].clone(), depth + 1);
                return Value::Array(out.into_iter().collect());
            }
            Value::InlineTable(t) if !t.is_empty() => {
                let i = c.below(t.len());
                let mut out = InlineTable::new();
                for (j, (k, x)) in t.iter().enumerate() {
                    let x = if i == j { mutate(c, x, depth + 1) } else { x.clone() };
                    out.insert(k, x);
                }
                return Value::InlineTable(out);
            }
            _ => {}
        }
    }
    match (v, c.draw(4)) {
        (_, 0) => any_value(c, depth),
        (Value::Array(a), 1) if !a.is_empty() => {
            let i = c.below(a.len());
            Value::Array(a.iter().enumerate().filter(|(j, _)| *j != i).map(|(_, x)| x.clone()).collect())
        }
        (Value::Array(a), _) => {
            let i = c.below(a.len() + 1);
            let x = if a.is_empty() || c.flag() { any_value(c, depth + 1) } else { a.get(c.below(a.len())).unwrap().clone() };
            let mut out: Vec<Value> = a.iter().cloned().collect();
            out.insert(i, x);
            Value::Array(out.into_iter().collect())
        }
        (Value::InlineTable(t), 1) if !t.is_empty() => {
            let i = c.below(t.len());
            Value::InlineTable(t.iter().enumerate().filter(|(j, _)| *j != i).map(|(_, (k, x))| (k, x.clone())).collect())
        }
        (Value::InlineTable(t), _) => {
            let mut out = t.clone();
            let k = match c.draw(3) { 0 => "value".to_string(), 1 => a_char(c).to_string(), _ => a_string(c, 3) };
            out.insert(&k, any_value(c, depth + 1));
            Value::InlineTable(out)
        }
        (Value::String(s), n) => {
            let mut s: Vec<char> = s.value().chars().collect();
            if n == 1 && !s.is_empty() {
                let i = c.below(s.len());
                s.remove(i);
            } else {
                let i = c.below(s.len() + 1);
                s.insert(i, a_char(c));
            }
            Value::from(s.into_iter().collect::<String>())
        }
        (Value::Integer(i), 1) => Value::from(*i.value() as f64),
        (Value::Integer(i), 2) => Value::from(i.value().wrapping_neg()),
        (Value::Float(f), 1) => Value::from(*f.value() as i64),
        (Value::Float(f), 2) => Value::from(-*f.value()),
        (v, 1) => Value::from(v.to_string()),
        (v, 2) => Value::Array([v.clone()].into_iter().collect()),
        (v, _) => Value::InlineTable([("value", v.clone())].into_iter().collect()),
    }
}

/// The value after it was written into a document and read back.
fn through_text(c: &mut Ctx, v: &Value) -> Value {
    let mut d = DocumentMut::new();
    let in_array = c.flag();
    d["x"] = toml_edit::Item::Value(if in_array { Value::Array([v.clone()].into_iter().collect()) } else { v.clone() });
    let s = d.to_string();
    let back: DocumentMut = match s.parse() {
        Ok(b) => b,
        Err(e) => violate(format!("the value {v} cannot be read back from a document: {e}")),
    };
    let v = back["x"].as_value().unwrap().clone();
    if in_array { v.as_array().unwrap().get(0).unwrap().clone() } else { v }
}

fn read<T: Val>(what: &str, v: &Value) -> Option<T> {
    match catches(|| T::from_value(v.clone())) {
        Ok(r) => r,
        Err(e) => violate(format!("{}: from_value of {what} {v} panicked: {e}", std::any::type_name::<T>())),
    }
}

fn round<T: Val>(c: &mut Ctx, what: &str, x: &T) -> Value {
    let name = std::any::type_name::<T>();
    ensure!(!unsafe { x.is_ghost_export() }, "{name}: {} is not saved at all", x.show());
    let v = match catches(|| x.to_value()) {
        Ok(v) => v,
        Err(e) => violate(format!("{name}: to_value of {} panicked: {e}", x.show())),
    };
    for text in [false, true] {
        let v = if text { through_text(c, &v) } else { v.clone() };
        match read::<T>("its own value", &v) {
            None => violate(format!("{name}: {what} {} is written as {v}, which is refused", x.show())),
            Some(y) => ensure!(x.same(&y), "{name}: {what} {} is written as {v} and read as {}", x.show(), y.show()),
        }
    }
    v
}

fn check_type<T: Val>(c: &mut Ctx) {
    let x = T::make(c, 0);
    c.note(|| format!("{}: {}", std::any::type_name::<T>(), x.show()));
    let v = round(c, "the value", &x);
    c.step();
    let mut m = v;
    for _ in 0..c.range(1, 3) {
        m = if c.draw(8) == 7 { any_value(c, 0) } else { mutate(c, &m, 0) };
        c.step();
        let a = T::admits(&m);
        c.note(|| format!("read {m}: {a:?}"));
        let got = read::<T>("the value", &m);
        match (a, &got) {
            (No, Some(y)) => violate(format!("{}: {m} is no such value, but is read as {}", std::any::type_name::<T>(), y.show())),
            (Yes, None) => violate(format!("{}: {m} is such a value, but is refused", std::any::type_name::<T>())),
            _ => {}
        }
        c.label(match a { No => "read: wrong", Open => "read: open", Yes => "read: right" });
        if a == No {
            c.nontrivial = true;
        }
        if let Some(y) = got {
            round(c, "the read value", &y);
        }
    }
}

macro_rules! types {
    ($($t:ty),+ $(,)?) => {
        pub const TYPES: &[(&str, fn(&mut Ctx))] = &[$((stringify!($t), check_type::<$t> as fn(&mut Ctx))),+];
    };
}
types![
    bool, u8, u16, u32, u64, i8, i16, i32, i64, f32, f64, char, String, NodePath, PathBuf, Ipv4Addr, Ipv6Addr, IpAddr,
    Duration, Datetime, Option<i64>, Option<String>, Option<Option<u8>>, Option<Vec<f32>>, Option<Duration>, Vec<u8>,
    Vec<String>, Vec<Option<char>>, Vec<Vec<i16>>, Vec<Duration>, Vec<NodePath>, Vec<(u8, String)>, HashSet<i32>,
    HashSet<String>, HashSet<char>, HashSet<Vec<bool>>, BTreeSet<u16>, BTreeSet<String>, BTreeSet<(i8, char)>,
    HashMap<char, i64>, HashMap<char, Vec<String>>, HashMap<String, f64>, HashMap<String, HashMap<char, bool>>,
    HashMap<String, Option<String>>, BTreeMap<char, String>, BTreeMap<char, BTreeMap<String, u8>>, BTreeMap<String, u64>,
    BTreeMap<String, Vec<f64>>, BTreeMap<String, IpAddr>, Box<i32>, Box<Vec<String>>, Rc<String>, Rc<Option<u8>>,
    Arc<f64>, Arc<[char; 2]>, Mutex<u32>, Mutex<Vec<bool>>, [u8; 0], [u8; 1], [i64; 3], [String; 2], [Option<char>; 4],
    [[f32; 2]; 3], [Vec<u8>; 2], [Duration; 2], [Box<String>; 2], [u8; 32], (u8,), (bool, String), (i8, u16, f32),
    (char, char, char, char), (u8, i16, u32, i64, f32), (bool, u8, char, String, f64, i8),
    (u8, u8, u8, u8, u8, u8, u8), (String, u8, String, u8, String, u8, String, u8), (i8, i16, i32, i64, u8, u16, u32, u64, f32),
    (bool, bool, char, char, String, String, f64, f64, i64, u64), ((u8, i8), (String, (char,))), Option<(u8, [String; 2])>,
    (Datetime, Duration), (PathBuf, NodePath, Ipv4Addr, Ipv6Addr), Vec<HashMap<String, (u8, Option<f32>)>>,
    BVec2, BVec3, BVec4, U8Vec2, U8Vec3, U8Vec4, U16Vec2, U16Vec3, U16Vec4, UVec2, UVec3, UVec4, U64Vec2, U64Vec3, U64Vec4,
    I8Vec2, I8Vec3, I8Vec4, I16Vec2, I16Vec3, I16Vec4, IVec2, IVec3, IVec4, I64Vec2, I64Vec3, I64Vec4, Vec2, Vec3, Vec3A,
    Vec4, Mat2, Mat3, Mat3A, Mat4, Quat, Affine2, Affine3A, DVec2, DVec3, DVec4, DMat2, DMat3, DMat4, DQuat, DAffine2,
    DAffine3, Vec<Vec3>, Option<Quat>, [Mat2; 2], HashMap<String, DVec2>, (Vec2, IVec2, BVec3), Box<Affine2>, Vec<U64Vec2>,
];


pub fn check(c: &mut Ctx) {
    let i = c.below(TYPES.len());
    let (name, f) = TYPES[i];
    c.label(name);
    f(c);
}
