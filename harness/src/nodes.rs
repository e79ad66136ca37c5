//! The node classes that the checks put into trees. Every instance carries a token, which identifies
//! it and tells when it is dropped; every hook is reported to the world that is being checked.

use crate::world;
use node_tree::prelude::*;
use std::cell::RefCell;

thread_local! {
    /// How often the token of each serial was dropped.
    static DROPS: RefCell<Vec<u8>> = const { RefCell::new(Vec::new()) };
}

/// Identifies an instance of a node.
#[derive(Debug)]
pub struct Tok(pub u64);

impl Default for Tok {
    fn default() -> Self {
        world::born();
        DROPS.with(|d| {
            let mut d = d.borrow_mut();
            d.push(0);
            Tok(d.len() as u64 - 1)
        })
    }
}

/// A clone is another instance.
impl Clone for Tok {
    fn clone(&self) -> Self {
        Tok::default()
    }
}

impl Drop for Tok {
    fn drop(&mut self) {
        let _ = DROPS.try_with(|d| {
            if let Some(n) = d.borrow_mut().get_mut(self.0 as usize) {
                *n = n.saturating_add(1);
            }
        });
        if !std::thread::panicking() {
            world::dropped(self.0);
        }
    }
}

/// The number of times that an instance was dropped.
pub fn drops(serial: u64) -> u8 {
    DROPS.with(|d| d.borrow().get(serial as usize).copied().unwrap_or(0))
}
/// The instances since `first` that are not dropped yet.
pub fn undropped(first: u64) -> Vec<u64> {
    (first..next_serial()).filter(|s| drops(*s) == 0).collect()
}
pub fn next_serial() -> u64 {
    DROPS.with(|d| d.borrow().len() as u64)
}

pub trait Alpha {
    fn alpha(&self) -> (u64, u8);
    fn set_alpha(&mut self, v: i64);
}
pub trait Beta {
    fn beta(&self) -> (u64, u8);
    fn set_beta(&mut self, v: i64);
}
pub trait Gamma {
    fn gamma(&self) -> (u64, u8);
    fn set_gamma(&mut self, v: i64);
}

macro_rules! node_class {
    ($name:ident $(extends $($tr:ident),+)?) => {
        class! {
            pub declare $name $(extends $($tr),+)?;

            pub signal sig(v: i64);

            pub export let val: i64 = 0;
            pub let note: i64 = 0;
            pub unique let uniq: i64 = 7;
            pub default let tok: Tok;

            hk loaded(&mut self) {
                let tree = self.tree_mut().map(|t| t as *mut dyn NodeTree);
                world::hook(world::Hook::Loaded, self.tok.0, self.rid(), tree, 0.0, self.has_just_loaded())
            }
            hk ready(&mut self) {
                let tree = self.tree_mut().map(|t| t as *mut dyn NodeTree);
                world::hook(world::Hook::Ready, self.tok.0, self.rid(), tree, 0.0, self.has_just_loaded())
            }
            hk process(&mut self, delta: f32) {
                let tree = self.tree_mut().map(|t| t as *mut dyn NodeTree);
                world::hook(world::Hook::Process, self.tok.0, self.rid(), tree, delta, self.has_just_loaded())
            }
            hk terminal(&mut self, reason: TerminationReason) {
                let tree = self.tree_mut().map(|t| t as *mut dyn NodeTree);
                world::hook(world::Hook::Terminal(reason), self.tok.0, self.rid(), tree, 0.0, self.has_just_loaded())
            }
            hk process_mode(&self) -> ProcessMode {
                world::mode_of(self.tok.0)
            }

            pub fn on_sig(&self, v: &i64) {
                world::signal(self.tok.0, *v);
            }
        }
    };
}

node_class!(N0 extends Alpha);
node_class!(N1 extends Alpha, Beta);

/// This one is written without `class!`, and it has no process mode of its own.
#[derive(Debug, Clone, Abstract, Register)]
pub struct N2 {
    pub val: ExportableField<i64>,
    base: NodeBase,
    pub note: Field<i64>,
    pub sig: Signal<i64>,
    pub uniq: UniqueField<i64>,
    pub tok: DefaultField<Tok>,
}
impl N2 {
    pub fn new() -> Self {
        N2 {
            val: 0.into(),
            base: NodeBase::new("N2".to_string()),
            note: 0.into(),
            sig: Signal::new(),
            uniq: 7.into(),
            tok: Tok::default().into(),
        }
    }
    pub fn on_sig(&self, v: &i64) {
        world::signal(self.tok.0, *v);
    }
}
impl Node for N2 {
    fn loaded(&mut self) {
        let tree = self.tree_mut().map(|t| t as *mut dyn NodeTree);
        world::hook(world::Hook::Loaded, self.tok.0, self.rid(), tree, 0.0, self.has_just_loaded())
    }
    fn ready(&mut self) {
        let tree = self.tree_mut().map(|t| t as *mut dyn NodeTree);
        world::hook(world::Hook::Ready, self.tok.0, self.rid(), tree, 0.0, self.has_just_loaded())
    }
    fn process(&mut self, delta: f32) {
        let tree = self.tree_mut().map(|t| t as *mut dyn NodeTree);
        world::hook(world::Hook::Process, self.tok.0, self.rid(), tree, delta, self.has_just_loaded())
    }
    fn terminal(&mut self, reason: TerminationReason) {
        let tree = self.tree_mut().map(|t| t as *mut dyn NodeTree);
        world::hook(world::Hook::Terminal(reason), self.tok.0, self.rid(), tree, 0.0, self.has_just_loaded())
    }
}

node_class!(N3 extends Beta);
node_class!(N4 extends Gamma);

// The destructors of these use the node itself.
impl Drop for N1 {
    fn drop(&mut self) {
        world::destructed(self);
    }
}
impl Drop for N4 {
    fn drop(&mut self) {
        world::destructed(self);
    }
}

macro_rules! tr {
    ($t:ident $get:ident $set:ident for $($n:ident = $c:literal),+) => {$(
        impl $t for $n {
            fn $get(&self) -> (u64, u8) { (self.tok.0, $c) }
            fn $set(&mut self, v: i64) { self.note = Field::Valid(v); }
        }
    )+};
}
tr!(Alpha alpha set_alpha for N0 = 0, N1 = 1);
tr!(Beta beta set_beta for N1 = 1, N3 = 3);
tr!(Gamma gamma set_gamma for N4 = 4);

pub const CLASSES: u8 = 5;
pub const CLASS_NAMES: [&str; 5] = ["N0", "N1", "N2", "N3", "N4"];

/// Runs some code with `$T` as the class of a number.
#[macro_export]
macro_rules! with_class {
    ($class:expr, $T:ident => $body:expr) => {
        match $class {
            0 => { type $T = $crate::nodes::N0; $body }
            1 => { type $T = $crate::nodes::N1; $body }
            2 => { type $T = $crate::nodes::N2; $body }
            3 => { type $T = $crate::nodes::N3; $body }
            _ => { type $T = $crate::nodes::N4; $body }
        }
    };
}

pub fn extends_alpha(c: u8) -> bool { c == 0 || c == 1 }
pub fn extends_beta(c: u8) -> bool { c == 1 || c == 3 }
pub fn extends_gamma(c: u8) -> bool { c == 4 }

/// What can be seen of a node without going through its base.
#[derive(Debug, Clone, Copy, PartialEq)]
pub struct Seen {
    pub class: u8,
    pub serial: u64,
    pub val: i64,
    pub note: Option<i64>,
    pub uniq: Option<i64>,
}

pub fn see(node: &dyn Node) -> Option<Seen> {
    let any = node.as_any_ref();
    for class in 0..CLASSES {
        let s = with_class!(class, T => any.downcast_ref::<T>().map(|n| Seen {
            class,
            serial: n.tok.0,
            val: *n.val,
            note: match &n.note { Field::Valid(v) => Some(*v), Field::Void => None },
            uniq: match &n.uniq { UniqueField::Valid(v) => Some(*v), UniqueField::Void => None },
        }));
        if s.is_some() {
            return s;
        }
    }
    None
}

pub fn make(class: u8, name: Option<&str>, val: i64, note: i64) -> Box<dyn Node> {
    with_class!(class, T => {
        let mut n = T::new();
        if let Some(name) = name {
            n.set_name(name);
        }
        *n.val = val;
        *n.note = note;
        Box::new(n)
    })
}

/// Adds a plain node.
pub fn add_plain(to: &mut NodeBase, class: u8, name: Option<&str>, val: i64, note: i64) {
    with_class!(class, T => {
        let mut n = T::new();
        if let Some(name) = name {
            n.set_name(name);
        }
        *n.val = val;
        *n.note = note;
        to.add_child(n)
    })
}
