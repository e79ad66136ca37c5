//! P16: node fields against the plain value they hold. The values are symbolic: every operator writes
//! down what it was given.

use crate::engine::*;
use crate::ensure;
use node_tree::prelude::*;
use node_tree::traits::element::{AsElement, Element};
use std::fmt::Debug;
use std::ops::*;

#[derive(Debug, Clone, PartialEq, PartialOrd, Default)]
pub struct Sx(String);

macro_rules! sym {
    ($($tr:ident $f:ident $op:literal),+) => {
        $(impl $tr for Sx {
            fn $f(&mut self, rhs: Sx) {
                if rhs.0 == "!" {
                    panic!("this operation panics");
                }
                self.0 = format!("({}{}{})", self.0, $op, rhs.0);
            }
        })+
    };
}
sym!(AddAssign add_assign "+", SubAssign sub_assign "-", MulAssign mul_assign "*", DivAssign div_assign "/", RemAssign rem_assign "%",
     BitOrAssign bitor_assign "|", BitXorAssign bitxor_assign "^", BitAndAssign bitand_assign "&", ShlAssign shl_assign "<<", ShrAssign shr_assign ">>");

impl Exportable for Sx {
    fn to_value(&self) -> toml_edit::Value {
        self.0.clone().into()
    }
    fn from_value(value: toml_edit::Value) -> Option<Self> {
        value.as_str().map(|s| Sx(s.to_string()))
    }
}

trait Kind: Sized + Clone + PartialEq + PartialOrd + Debug + Deref<Target = Sx> + DerefMut + From<Sx> + Voidable + Exportable + Element<Sx>
    + AddAssign + SubAssign + MulAssign + DivAssign + RemAssign + BitOrAssign + BitXorAssign + BitAndAssign + ShlAssign + ShrAssign
    + AddAssign<Sx> + SubAssign<Sx> + MulAssign<Sx> + DivAssign<Sx> + RemAssign<Sx> + BitOrAssign<Sx> + BitXorAssign<Sx> + BitAndAssign<Sx> + ShlAssign<Sx> + ShrAssign<Sx>
{
    const NAME: &'static str;
    /// Whether it can be void, and how a copy of it looks.
    const VOIDABLE: bool;
    const UNIQUE: bool;
    fn fresh(v: Sx) -> Self;
    fn wrapped(v: Sx) -> Self;
    fn is_void_(&self) -> Option<bool> { None }
    fn is_reachable_(&self) -> Option<bool> { None }
    fn take_(&mut self) -> Option<Option<Sx>> { None }
    fn write_(&mut self, _v: Sx) -> Option<Option<Sx>> { None }
    fn force_(self) -> Option<Sx> { None }
}
macro_rules! voidable_kind {
    ($t:ident, $unique:literal) => {
        impl Kind for $t<Sx> {
            const NAME: &'static str = stringify!($t);
            const VOIDABLE: bool = true;
            const UNIQUE: bool = $unique;
            fn fresh(v: Sx) -> Self { $t::new(v) }
            fn wrapped(v: Sx) -> Self { v.wrap() }
            fn is_void_(&self) -> Option<bool> { Some(self.is_void()) }
            fn is_reachable_(&self) -> Option<bool> { Some(self.is_reachable()) }
            fn take_(&mut self) -> Option<Option<Sx>> { Some(self.take()) }
            fn write_(&mut self, v: Sx) -> Option<Option<Sx>> { Some(self.write_valid(v)) }
            fn force_(self) -> Option<Sx> { Some(self.force_take()) }
        }
    };
}
macro_rules! plain_kind {
    ($t:ident) => {
        impl Kind for $t<Sx> {
            const NAME: &'static str = stringify!($t);
            const VOIDABLE: bool = false;
            const UNIQUE: bool = false;
            fn fresh(v: Sx) -> Self { $t::new(v) }
            fn wrapped(v: Sx) -> Self { v.wrap() }
        }
    };
}
voidable_kind!(Field, false);
voidable_kind!(UniqueField, true);
plain_kind!(ExportableField);
plain_kind!(DefaultField);

pub fn check(c: &mut Ctx) {
    match c.below(4) {
        0 => run::<Field<Sx>>(c),
        1 => run::<UniqueField<Sx>>(c),
        2 => run::<ExportableField<Sx>>(c),
        _ => run::<DefaultField<Sx>>(c),
    }
}

fn leaf(c: &mut Ctx) -> Sx {
    Sx(c.pick(&["a", "b", "c", "d", "e", "", "!"]).to_string())
}

fn build<K: Kind>(c: &mut Ctx) -> (K, Option<Sx>) {
    let v = leaf(c);
    match c.below(5) {
        0 => (K::fresh(v.clone()), Some(v)),
        1 => (K::from(v.clone()), Some(v)),
        2 => (K::wrapped(v.clone()), Some(v)),
        3 => {
            let k = K::void();
            if K::VOIDABLE { (k, None) } else { (k, Some(Sx::default())) }
        }
        _ => {
            let mut k = K::fresh(Sx("old".into()));
            *k = v.clone();
            (k, Some(v))
        }
    }
}

fn same<K: Kind>(k: &K, m: &Option<Sx>, what: &str) {
    if let Some(v) = k.is_void_() {
        ensure!(v == m.is_none(), "after {what}, is_void() of the {} is {v}", K::NAME);
        ensure!(k.is_reachable_() == Some(m.is_some()), "after {what}, is_reachable() of the {} is wrong", K::NAME);
    }
    let got = catches(|| (**k).clone());
    match (got, m) {
        (Ok(g), Some(v)) => ensure!(g == *v, "after {what}, the {} holds {g:?}, expected {v:?}", K::NAME),
        (Err(_), None) => (),
        (Ok(g), None) => violate(format!("after {what}, the void {} gives {g:?}", K::NAME)),
        (Err(e), Some(_)) => violate(format!("after {what}, reading the {} panics: {e}", K::NAME)),
    }
    let got = catches(|| k.as_inner().clone());
    ensure!(got.ok() == *m, "after {what}, as_inner() of the {} is wrong", K::NAME);
}

fn run<K: Kind>(c: &mut Ctx) {
    let (mut k, mut m) = build::<K>(c);
    c.note(|| format!("{} with {m:?}", K::NAME));
    same(&k, &m, "making it");
    let n = c.range(1, 12);
    for _ in 0..n {
        c.step();
        let what;
        match c.weighted(&[8, 8, 2, 2, 2, 2, 2, 2, 2, 1]) {
            w @ (0 | 1) => {
                let op = c.below(10);
                let sign = ["+=", "-=", "*=", "/=", "%=", "|=", "^=", "&=", "<<=", ">>="][op];
                macro_rules! apply {
                    ($a:expr, $b:expr) => {
                        match op {
                            0 => $a += $b,
                            1 => $a -= $b,
                            2 => $a *= $b,
                            3 => $a /= $b,
                            4 => $a %= $b,
                            5 => $a |= $b,
                            6 => $a ^= $b,
                            7 => $a &= $b,
                            8 => $a <<= $b,
                            _ => $a >>= $b,
                        }
                    };
                }
                let (rhs, rv) = if w == 0 {
                    let v = leaf(c);
                    (None, Some(v))
                } else {
                    let (r, v) = build::<K>(c);
                    (Some(r), v)
                };
                what = format!("{sign} {}{rv:?}", if w == 1 { "a field with " } else { "" });
                c.note(|| what.clone());
                c.label(if w == 0 { "operator with a value" } else { "operator with a field" });
                // The operation on the plain values, if there are any.
                let mut want = m.clone();
                let std = catches(|| match (&mut want, &rv) {
                    (Some(a), Some(b)) => {
                        let b = b.clone();
                        apply!(*a, b)
                    }
                    _ => panic!("void"),
                });
                let got = catches(|| match rhs {
                    Some(r) => apply!(k, r),
                    None => {
                        let b = rv.clone().unwrap();
                        apply!(k, b)
                    }
                });
                ensure!(got.is_ok() == std.is_ok(), "{what} on a {} with {m:?} gives {got:?}, on plain values {std:?}", K::NAME);
                m = want;
                c.nontrivial = true;
            }
            2 => {
                let v = leaf(c);
                what = format!("= {v:?}");
                c.note(|| what.clone());
                let r = catches(|| *k = v.clone());
                ensure!(r.is_ok() == m.is_some(), "writing to a {} with {m:?} gives {r:?}", K::NAME);
                if m.is_some() {
                    m = Some(v);
                }
            }
            3 => {
                what = "take".to_string();
                if let Some(got) = k.take_() {
                    c.note(|| what.clone());
                    c.label("take");
                    ensure!(got == m, "take of a {} with {m:?} gives {got:?}", K::NAME);
                    m = None;
                }
            }
            4 => {
                let v = leaf(c);
                what = format!("write_valid {v:?}");
                if let Some(got) = k.write_(v.clone()) {
                    c.note(|| what.clone());
                    c.label("write_valid");
                    ensure!(got == m, "{what} to a {} with {m:?} gives {got:?}", K::NAME);
                    m = Some(v);
                }
            }
            5 => {
                what = "clone".to_string();
                c.note(|| what.clone());
                c.label("clone");
                let copy = k.clone();
                let cm = if K::UNIQUE { None } else { m.clone() };
                same(&copy, &cm, "copying it");
                same(&k, &m, "being copied");
                // The copies are independent.
                let mut other = copy;
                if cm.is_some() {
                    *other = Sx("z".into());
                }
                if c.flag() {
                    other = k;
                    k = other.clone();
                    m = cm;
                    let _ = other;
                }
            }
            6 => {
                let (o, om) = build::<K>(c);
                what = format!("comparing with {om:?}");
                c.note(|| what.clone());
                c.label("compare");
                ensure!((k == o) == (m == om), "== of {} fields with {m:?} and {om:?} is {}", K::NAME, k == o);
                ensure!((k != o) == (m != om), "!= of {} fields with {m:?} and {om:?} is {}", K::NAME, k != o);
                if let (Some(a), Some(b)) = (&m, &om) {
                    ensure!(k.partial_cmp(&o) == a.partial_cmp(b), "{} fields with {m:?} and {om:?} compare as {:?}", K::NAME, k.partial_cmp(&o));
                    ensure!((k < o) == (a < b) && (k > o) == (a > b) && (k <= o) == (a <= b) && (k >= o) == (a >= b), "{} fields with {m:?} and {om:?} compare wrongly", K::NAME);
                }
            }
            7 => {
                what = "force_take".to_string();
                let copy = std::mem::replace(&mut k, K::fresh(Sx("new".into())));
                c.note(|| what.clone());
                let got = catches(|| copy.force_());
                if K::VOIDABLE {
                    ensure!(got.as_ref().ok().cloned().flatten() == m, "force_take of a {} with {m:?} gives {got:?}", K::NAME);
                    ensure!(got.is_ok() == m.is_some(), "force_take of a {} with {m:?} gives {got:?}", K::NAME);
                }
                m = Some(Sx("new".into()));
            }
            8 => {
                let v = leaf(c);
                what = format!("changing it through DerefMut to {v:?}");
                c.note(|| what.clone());
                if m.is_some() {
                    k.0.push_str(&v.0);
                    m.as_mut().unwrap().0.push_str(&v.0);
                }
            }
            _ => {
                (k, m) = build::<K>(c);
                what = format!("replacing it by {m:?}");
                c.note(|| what.clone());
            }
        }
        same(&k, &m, &what);
        if K::NAME == "ExportableField" {
            let v = k.to_value();
            ensure!(v.as_str() == m.as_ref().map(|x| x.0.as_str()), "an ExportableField with {m:?} is saved as {v}");
            let back = K::from_value(v);
            ensure!(back.as_ref() == Some(&k), "an ExportableField with {m:?} is loaded as {back:?}");
            ensure!(K::from_value(5i64.into()).is_none(), "an ExportableField is loaded from a value its type refuses");
            ensure!(!unsafe { k.is_ghost_export() }, "an ExportableField is not exported");
        } else {
            ensure!(unsafe { k.is_ghost_export() }, "a {} is exported", K::NAME);
        }
    }
}
