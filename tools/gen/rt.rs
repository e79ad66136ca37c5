//! What the generated programs of P19 and P20 are made of, apart from the macros under test: nothing
//! here uses `class!` or `scene!`.

use node_tree::prelude::*;
use node_tree::services::node_registry::{FieldMap, SFieldMap};
use std::any::Any;
use std::cell::RefCell;
use std::fmt::Debug;
use std::io::Write;
use std::mem::ManuallyDrop;

pub use toml_edit;

// The crate under test is built once, with coverage counters, which the generated programs have no use for.
#[unsafe(no_mangle)]
pub extern "C" fn __sanitizer_cov_8bit_counters_init(_start: *mut u8, _stop: *mut u8) {}
#[unsafe(no_mangle)]
pub extern "C" fn __sanitizer_cov_pcs_init(_start: *const usize, _stop: *const usize) {}

// ------------------------------------------------------------------ recording

thread_local! {
    static TICKS: RefCell<Vec<u32>> = const { RefCell::new(Vec::new()) };
    static LOGS: RefCell<Vec<String>> = const { RefCell::new(Vec::new()) };
}

/// Records that an expression was evaluated.
pub fn tick<T>(id: u32, v: T) -> T {
    TICKS.with(|t| t.borrow_mut().push(id));
    v
}
/// The expressions that were evaluated since the last call, sorted.
pub fn ticks() -> Vec<u32> {
    let mut t = TICKS.with(|t| std::mem::take(&mut *t.borrow_mut()));
    t.sort();
    t
}
pub fn log(s: impl Into<String>) {
    LOGS.with(|l| l.borrow_mut().push(s.into()));
}
pub fn logs() -> Vec<String> {
    LOGS.with(|l| std::mem::take(&mut *l.borrow_mut()))
}

// ------------------------------------------------------------------ checking

#[track_caller]
pub fn eq<A: PartialEq<B> + Debug + ?Sized, B: Debug + ?Sized>(what: &str, got: &A, want: &B) {
    if got != want {
        panic!("{what}: got {got:?}, expected {want:?}");
    }
}
#[track_caller]
pub fn same<T: Debug + ?Sized>(what: &str, got: &T, want: &T) {
    let (got, want) = (format!("{got:?}"), format!("{want:?}"));
    if got != want {
        panic!("{what}: got {got}, expected {want}");
    }
}
#[track_caller]
pub fn yes(what: &str, v: bool) {
    if !v {
        panic!("{what}");
    }
}
pub fn sorted(mut v: Vec<String>) -> Vec<String> {
    v.sort();
    v
}
/// Each of the messages is expected, and as often at most.
#[track_caller]
pub fn some_of(what: &str, got: Vec<String>, mut want: Vec<String>) {
    for g in &got {
        match want.iter().position(|w| w == g) {
            Some(i) => want.swap_remove(i),
            None => panic!("{what}: got {got:?}, the others could be {want:?}"),
        };
    }
}
pub fn id<T>(v: T) -> T {
    v
}
pub fn len<T>(v: &[T]) -> i64 {
    v.len() as i64
}

// ------------------------------------------------------------------ types

#[derive(Debug, Clone, PartialEq, Default)]
pub struct Plain {
    pub a: i64,
    pub b: String,
}
#[derive(Debug, PartialEq)]
pub struct NoClone(pub i64);
#[derive(Debug, Clone, PartialEq)]
pub struct NoDefault(pub i64);
#[derive(Debug, Clone, PartialEq, Default)]
pub struct Pair<A, B> {
    pub l: A,
    pub r: B,
}
/// Its inherent `default` is not the trait's.
#[derive(Debug, Clone, PartialEq)]
pub struct Odd(pub i64);
impl Default for Odd {
    fn default() -> Self {
        Odd(11)
    }
}
#[derive(Debug, Clone, PartialEq, Default)]
pub enum Mode {
    #[default]
    Off,
    On(u8),
    Named {
        x: i32,
    },
}
/// A type with its own export.
#[derive(Debug, Clone, PartialEq, Default)]
pub struct Exp(pub i64);
impl Exportable for Exp {
    fn to_value(&self) -> toml_edit::Value {
        format!("exp {}", self.0).into()
    }
    fn from_value(value: toml_edit::Value) -> Option<Self> {
        value.as_str()?.strip_prefix("exp ")?.parse().ok().map(Exp)
    }
}
pub mod deep {
    pub mod er {
        #[derive(Debug, Clone, PartialEq, Default)]
        pub struct Thing<T>(pub T);
    }
}
pub trait Shape: Debug {
    fn area(&self) -> i64;
}
impl Shape for Plain {
    fn area(&self) -> i64 {
        self.a
    }
}
pub type Al<T> = Vec<Option<T>>;

// ------------------------------------------------------------------ a node without macros

#[derive(Debug, Clone)]
pub struct Host {
    base: NodeBase,
}
impl Host {
    pub fn new() -> Self {
        Host { base: NodeBase::new("Host".to_string()) }
    }
}
impl std::ops::Deref for Host {
    type Target = NodeBase;
    fn deref(&self) -> &NodeBase {
        &self.base
    }
}
impl std::ops::DerefMut for Host {
    fn deref_mut(&mut self) -> &mut NodeBase {
        &mut self.base
    }
}
impl NodeAbstract for Host {
    fn base(&self) -> &NodeBase {
        &self.base
    }
    fn base_mut(&mut self) -> &mut NodeBase {
        &mut self.base
    }
    fn as_dyn(&self) -> &dyn Node {
        self
    }
    fn as_dyn_mut(&mut self) -> &mut dyn Node {
        self
    }
    fn as_dyn_raw(&self) -> *const dyn Node {
        self
    }
    fn as_dyn_raw_mut(&mut self) -> *mut dyn Node {
        self
    }
    fn to_dyn_box(self) -> Box<dyn Node> {
        Box::new(self)
    }
    fn as_any_ref(&self) -> &dyn Any {
        self
    }
    fn as_any_mut(&mut self) -> &mut dyn Any {
        self
    }
    fn clone_as_instance(&self) -> Box<dyn Node> {
        Box::new(self.clone())
    }
    fn name_as_type(&self) -> String {
        std::any::type_name::<Self>().to_string()
    }
}
impl Registered for Host {
    fn load_from_owned(_: SFieldMap) -> Result<Self, String> {
        Ok(Host::new())
    }
    fn save_from_owned(&self) -> FieldMap {
        FieldMap::new()
    }
}
impl Node for Host {}

// ------------------------------------------------------------------ scenes

pub struct Seen {
    pub depth: usize,
    pub owner: bool,
    node: ManuallyDrop<Box<dyn Node>>,
}
impl Seen {
    #[track_caller]
    pub fn is<T: Node>(&self, what: &str) -> &T {
        match self.node.as_any_ref().downcast_ref::<T>() {
            Some(n) => n,
            None => panic!("{what}: a {}, expected a {}", self.node.name_as_type(), std::any::type_name::<T>()),
        }
    }
    pub fn name(&self) -> &str {
        self.node.name()
    }
}
/// The nodes of a scene, in order.
pub fn walk(scene: &NodeScene) -> Vec<Seen> {
    fn go(scene: &NodeScene, depth: usize, out: &mut Vec<Seen>) {
        out.push(Seen { depth, owner: scene.is_owner, node: ManuallyDrop::new(unsafe { scene.get_node() }) });
        for c in scene.children() {
            go(c, depth + 1, out);
        }
    }
    let mut out = Vec::new();
    go(scene, 0, &mut out);
    out
}

/// The values of the only node of a saved scene.
pub fn saved(text: &str) -> std::collections::BTreeMap<String, toml_edit::Value> {
    let doc: toml_edit::DocumentMut = text.parse().expect("the saved scene is no TOML document");
    eq("number of saved nodes", &doc.as_table().len(), &1usize);
    let (_, item) = doc.as_table().iter().next().unwrap();
    let table = item.as_table_like().expect("the saved node is no table");
    table
        .iter()
        .map(|(k, v)| (k.strip_prefix("r#").filter(|k| *k != "metadata").unwrap_or(k).to_string(), v.as_value().expect("a saved field is no value").clone()))
        .collect()
}

// ------------------------------------------------------------------ running

/// Runs the cases whose names are given (or all), and reports each on a line of its own.
pub fn run(cases: &[(&str, fn())]) {
    let only: Vec<String> = std::env::args().skip(1).collect();
    std::panic::set_hook(Box::new(|info| {
        let what = info.payload();
        let text = what.downcast_ref::<String>().cloned().or(what.downcast_ref::<&str>().map(|s| s.to_string()));
        let at = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        MESSAGE.with(|m| {
            m.borrow_mut().get_or_insert(format!("{} (at {at})", text.unwrap_or_default()));
        });
    }));
    for (name, f) in cases {
        if !only.is_empty() && !only.iter().any(|o| o == name) {
            continue;
        }
        say(&format!("START {name}"));
        MESSAGE.with(|m| m.borrow_mut().take());
        ticks();
        logs();
        match std::panic::catch_unwind(f) {
            Ok(()) => say(&format!("OK {name}")),
            Err(_) => {
                let m = MESSAGE.with(|m| m.borrow_mut().take()).unwrap_or_default();
                say(&format!("FAIL {name} {}", m.replace('\n', " ")));
            }
        }
    }
}
/// Whether it panics.
pub fn panics(f: impl FnOnce()) -> bool {
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    MESSAGE.with(|m| m.borrow_mut().take());
    r.is_err()
}
thread_local! {
    static MESSAGE: RefCell<Option<String>> = const { RefCell::new(None) };
}
fn say(s: &str) {
    let mut o = std::io::stdout();
    let _ = writeln!(o, "@@ {s}");
    let _ = o.flush();
}
