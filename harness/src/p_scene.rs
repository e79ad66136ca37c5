//! P10, P12 and P18: scenes of nodes with fields of many kinds and types are saved, loaded, copied and
//! branched; documents are edited and compared with what a reference loader makes of them.

use crate::engine::*;
use crate::ensure;
use crate::p_value::{Admits, Val, a_string, any_value, mutate};
use glam::*;
use node_tree::prelude::*;
use node_tree::trees::TreeSimple;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::net::{IpAddr, Ipv6Addr};
use std::path::{Path, PathBuf};
use std::sync::Arc;
use std::time::Duration;
use toml_edit::{Datetime, DocumentMut, InlineTable, Item, Table, Value};

/// The fields of a node: exported ones by name, and the others.
#[derive(Clone, Debug, PartialEq)]
pub struct Seen {
    class: &'static str,
    exported: BTreeMap<&'static str, String>,
    plain: Option<String>,
    unique: Option<String>,
    default: String,
}

type Reader = fn(&Value) -> (Admits, Option<String>);

fn reader<T: Val>(v: &Value) -> (Admits, Option<String>) {
    (T::admits(v), T::from_value(v.clone()).map(|x| x.show()))
}

struct Class {
    name: &'static str,
    make: fn(&mut Ctx, Option<&str>) -> Box<dyn Node>,
    see: fn(&dyn Node) -> Option<Seen>,
    touch: fn(&mut dyn Node, &mut Ctx) -> bool,
    fields: &'static [(&'static str, Reader)],
}

macro_rules! rich {
    ($name:ident [$($f:ident: $t:ty),*] default [$($d:ident: $dt:ident),*]) => {
        class! {
            pub declare $name;
            pub signal sig(v: i64);
            $(pub export let $f: $t = <$t as Default>::default();)*
            $(pub export default let $d: $dt;)*
            pub let plain: i64 = 5;
            pub unique let uniq: String = "only".to_string();
            pub default let dflt: u16;
            pub export let nothing: () = ();
        }
        impl $name {
            fn fill(&mut self, _c: &mut Ctx) {
                $(*self.$f = <$t as Val>::make(_c, 1);)*
                $(*self.$d = <$dt as Val>::make(_c, 1);)*
                *self.plain = _c.draw(100) as i64;
                *self.dflt = _c.draw(100) as u16;
            }
            const CLASS: Class = Class {
                name: concat!(module_path!(), "::", stringify!($name)),
                make: |c, name| {
                    let mut n = $name::new();
                    if let Some(name) = name {
                        n.set_name(name);
                    }
                    n.fill(c);
                    Box::new(n)
                },
                see: |node| {
                    let n = node.as_any_ref().downcast_ref::<$name>()?;
                    Some(Seen {
                        class: concat!(module_path!(), "::", stringify!($name)),
                        exported: [$((stringify!($f), Val::show(&*n.$f)),)* $((stringify!($d), Val::show(&*n.$d)),)*].into_iter().collect(),
                        plain: match &n.plain { Field::Valid(v) => Some(v.show()), Field::Void => None },
                        unique: match &n.uniq { UniqueField::Valid(v) => Some(v.show()), UniqueField::Void => None },
                        default: n.dflt.show(),
                    })
                },
                touch: |node, c| match node.as_any_mut().downcast_mut::<$name>() {
                    Some(n) => {
                        n.plain = Field::Valid(0);
                        n.fill(c);
                        true
                    }
                    None => false,
                },
                fields: &[$((stringify!($f), reader::<$t>),)* $((stringify!($d), reader::<$dt>),)*],
            };
        }
    };
}

rich!(E0 [] default []);
rich!(E1 [n: i64, s: String] default [flag: bool]);
rich!(E2 [opt: Option<String>, list: Vec<f64>, map: HashMap<String, i64>, arr: [u8; 3], tup: (bool, char), time: Duration,
    path: NodePath] default [word: String]);
rich!(E3 [pos: Vec3, rot: Quat, mat: Mat4, aff: Affine2, big: U64Vec2, bits: BVec4] default [x: f32, y: f64]);
rich!(E4 [text: PathBuf, ip: Option<IpAddr>, six: Vec<Ipv6Addr>, when: Option<Datetime>, set: BTreeSet<u16>, hash: HashSet<String>,
    deep: BTreeMap<String, Vec<Option<(i8, char)>>>, by_char: BTreeMap<char, Duration>] default []);
mod inner {
    use super::*;
    rich!(E5 [boxed: Box<Vec<String>>, shared: Arc<Option<u64>>, nest: [[i32; 2]; 2]] default [c: char, u: u64]);
    // Has the same name as a class of another module, but other fields.
    rich!(F1 [n: String] default []);
    pub const CLASSES: [&Class; 2] = [&E5::CLASS, &F1::CLASS];
}
rich!(F1 [n: i8, other_field: u8] default []);

/// A field type of somebody else's, which is saved.
#[derive(Debug, Clone, Default)]
pub struct OwnValue(i64);
impl Exportable for OwnValue {
    fn to_value(&self) -> Value {
        Value::from(self.0)
    }
    fn from_value(value: Value) -> Option<Self> {
        value.as_integer().map(OwnValue)
    }
}
impl Voidable for OwnValue {
    fn void() -> Self {
        OwnValue(-1)
    }
}
/// A field type of somebody else's, which is not saved.
#[derive(Debug, Clone, Default)]
pub struct OwnGhost(u16);
impl Exportable for OwnGhost {
    unsafe fn is_ghost_export(&self) -> bool {
        true
    }
    fn to_value(&self) -> Value {
        violate("a ghost export is saved")
    }
    fn from_value(_: Value) -> Option<Self> {
        violate("a ghost export is loaded")
    }
}
impl Voidable for OwnGhost {
    fn void() -> Self {
        OwnGhost(0)
    }
}

/// A node that is written without `class!`.
#[derive(Debug, Clone, Abstract, Register)]
pub struct Hand {
    ghost: OwnGhost,
    word: ExportableField<String>,
    own: OwnValue,
    base: NodeBase,
    plain: Field<i64>,
    uniq: UniqueField<String>,
    in_field: ExportableField<OwnGhost>,
    sig: Signal<i64>,
}
impl Node for Hand {}
impl Hand {
    fn fill(&mut self, c: &mut Ctx) {
        *self.word = String::make(c, 1);
        self.own.0 = i64::make(c, 1);
        *self.plain = c.draw(100) as i64;
        self.ghost.0 = c.draw(100) as u16;
        self.in_field.0 = self.ghost.0;
    }
    const CLASS: Class = Class {
        name: concat!(module_path!(), "::Hand"),
        make: |c, name| {
            let mut n = Hand {
                ghost: OwnGhost(1),
                word: String::new().into(),
                own: OwnValue(1),
                base: NodeBase::new("Hand".to_string()),
                plain: 5.into(),
                uniq: "only".to_string().into(),
                in_field: OwnGhost(1).into(),
                sig: Signal::new(),
            };
            if let Some(name) = name {
                n.set_name(name);
            }
            n.fill(c);
            Box::new(n)
        },
        see: |node| {
            let n = node.as_any_ref().downcast_ref::<Hand>()?;
            Some(Seen {
                class: concat!(module_path!(), "::Hand"),
                exported: [("word", n.word.show()), ("own", n.own.0.show())].into_iter().collect(),
                plain: match &n.plain { Field::Valid(v) => Some(v.show()), Field::Void => None },
                unique: match &n.uniq { UniqueField::Valid(v) => Some(v.show()), UniqueField::Void => None },
                default: if n.in_field.0 == n.ghost.0 { n.ghost.0.show() } else { format!("{} and {}", n.ghost.0, n.in_field.0) },
            })
        },
        touch: |node, c| match node.as_any_mut().downcast_mut::<Hand>() {
            Some(n) => {
                n.plain = Field::Valid(0);
                n.fill(c);
                true
            }
            None => false,
        },
        fields: &[("word", reader::<String>), ("own", reader::<i64>)],
    };
}

const CLASSES: &[&Class] = &[&E0::CLASS, &E1::CLASS, &E2::CLASS, &E3::CLASS, &E4::CLASS, inner::CLASSES[0], inner::CLASSES[1], &F1::CLASS, &Hand::CLASS];

/// The classes have a name in no other case: the macro names statics after the lowercase name.
pub fn see(n: &dyn Node) -> Option<Seen> {
    CLASSES.iter().find_map(|k| (k.see)(n))
}

/// What a scene holds, seen from outside.
#[derive(Clone, Debug, PartialEq)]
struct Shape {
    seen: Seen,
    name: String,
    owner: bool,
    children: Vec<Shape>,
}

impl Shape {
    fn of(s: &NodeScene) -> Shape {
        let node = std::mem::ManuallyDrop::new(unsafe { s.get_node() });
        let Some(seen) = see(&**node) else { violate(format!("the scene holds a node of type {}, which is none of its own", node.name_as_type())) };
        let name = node.name().to_string();
        Shape { seen, name, owner: s.is_owner, children: s.children().iter().map(Shape::of).collect() }
    }
    fn count(&self) -> usize {
        1 + self.children.iter().map(|c| c.count()).sum::<usize>()
    }
    /// What has to come back from a file.
    fn loaded(mut self) -> Shape {
        self.seen.plain = None;
        self.seen.unique = None;
        self.seen.default = 0u16.show();
        self.children = self.children.into_iter().map(|c| c.loaded()).collect();
        self
    }
    fn cloned(mut self) -> Shape {
        self.seen.unique = None;
        self.children = self.children.into_iter().map(|c| c.cloned()).collect();
        self
    }
    fn structure(&self) -> String {
        format!("{}{}[{}]", self.seen.class, self.owner, self.children.iter().map(|c| c.structure()).collect::<Vec<_>>().join(","))
    }
    /// Where two scenes differ.
    fn diff(&self, o: &Shape) -> Option<String> {
        if self.seen.class != o.seen.class {
            return Some(format!("{:?} is a {} and not a {}", self.name, o.seen.class, self.seen.class));
        }
        if self.name != o.name {
            return Some(format!("{:?} is called {:?}", self.name, o.name));
        }
        if self.owner != o.owner {
            return Some(format!("{:?}: owner is {} and not {}", self.name, o.owner, self.owner));
        }
        if self.seen != o.seen {
            return Some(format!("the fields of {:?} are {:?} and not {:?}", self.name, o.seen, self.seen));
        }
        if self.children.len() != o.children.len() {
            return Some(format!("{:?} has {} children and not {}", self.name, o.children.len(), self.children.len()));
        }
        self.children.iter().zip(&o.children).find_map(|(a, b)| a.diff(b))
    }
}

fn a_name(c: &mut Ctx) -> Option<String> {
    match c.draw(8) {
        0 | 1 => None,
        2 => Some(c.pick(&["A", "B", "A_1", "A_", "_", "_0", "", "0", "B_00", "metadata", "x.y", "a b", "\"q\"", "it's", "ü_7", "Node_18446744073709551615"]).to_string()),
        3 => Some(format!("N_{}", c.draw(6))),
        4 => Some(a_string(c, 6)),
        _ => Some(format!("n{}", c.draw(4))),
    }
}

/// Names that a tree can take: paths of nodes that contain one of the others are outside of what is checked.
fn tree_safe(s: &Shape) -> bool {
    !s.name.contains('/') && s.name != "." && s.name != ".." && !s.name.is_empty() && s.children.iter().all(tree_safe)
}

fn dir() -> PathBuf {
    PathBuf::from(std::env::var("NTCHECK_TMP").unwrap_or_else(|_| "/tmp".into()))
}
/// A file of this process' own.
fn file(what: &str) -> PathBuf {
    dir().join(format!("{what}-{}.scn", std::process::id()))
}

struct Build<'a> {
    c: &'a mut Ctx,
    budget: usize,
    style: Style,
    /// How many children the root of a wide scene has.
    width: usize,
    /// Whether there are so many nodes that they had better be small ones.
    huge: bool,
}

/// How the nodes of a scene hang together.
#[derive(Clone, Copy, PartialEq)]
enum Style {
    Bushy,
    Chain,
    Wide,
}

impl Build<'_> {
    fn node(&mut self) -> NodeScene {
        let k = if self.huge { *self.c.pick(&[&E0::CLASS, &F1::CLASS]) } else { *self.c.pick(CLASSES) };
        let name = a_name(self.c);
        NodeScene::new_dyn((k.make)(self.c, name.as_deref()))
    }
    fn scene(&mut self, depth: u32) -> NodeScene {
        let mut s = self.node();
        self.budget = self.budget.saturating_sub(1);
        let n = match self.style {
            Style::Bushy => self.c.below(if depth > 3 { 1 } else { 4 }),
            Style::Chain => 1 + (self.c.draw(5) == 4) as usize,
            Style::Wide => [self.width, 1 + self.c.below(2)].get(depth as usize).copied().unwrap_or(0),
        };
        for _ in 0..n {
            if self.budget == 0 {
                break;
            }
            let child = self.scene(depth + 1);
            self.append(&mut s, child);
        }
        if depth > 0 && (self.style == Style::Bushy || depth == 2) {
            s = self.rework(s, depth);
        }
        s
    }
    fn append(&mut self, to: &mut NodeScene, child: NodeScene) {
        if self.c.draw(3) == 2 {
            to.append_as_owner(child);
        } else {
            to.append(child);
        }
    }
    /// Makes another scene out of one.
    fn rework(&mut self, s: NodeScene, depth: u32) -> NodeScene {
        match self.c.draw(10) {
            7 => {
                self.c.label("clone");
                s.clone()
            }
            8 => {
                self.c.label("reload");
                match NodeScene::load_from_str(&s.save_to_str().unwrap_or_default()) {
                    Ok(t) => t,
                    Err(e) => violate(format!("a saved scene does not load: {e}")),
                }
            }
            9 if depth < 3 && tree_safe(&Shape::of(&s)) => {
                self.c.label("branch");
                self.branch(s)
            }
            _ => s,
        }
    }
    /// Puts a scene into a tree and takes a branch of the tree.
    fn branch(&mut self, s: NodeScene) -> NodeScene {
        let mut tree = TreeSimple::new(s, LoggerVerbosity::NoDebug);
        let root = tree.root().rid();
        let all = unsafe { tree.base_mut().get_node_mut(root) }.unwrap().top_down(true);
        let at = *self.c.pick(&all);
        let before = Live::of(&mut *tree, at);
        let b = unsafe { tree.base_mut().get_node_mut(at) }.unwrap().save_as_branch();
        if self.c.pid == "P18" {
            let mut expect = before.clone().cloned();
            expect.owner = true;
            if let Some(d) = expect.diff(&Shape::of(&b)) {
                violate(format!("save_as_branch: {d}"));
            }
            // Neither affects the other.
            let mut b2 = b.clone();
            let c = &mut *self.c;
            change(&mut b2, c);
            change_tree(&mut *tree, at, c);
            if let Some(d) = expect.diff(&Shape::of(&b)) {
                violate(format!("a branch changed with the tree or a clone of it: {d}"));
            }
            let _ = b2;
        }
        b
    }
}

struct Live;
impl Live {
    /// The shape of the nodes of a tree.
    fn of(tree: &mut TreeSimple, rid: RID) -> Shape {
        let (seen, name, owner, kids) = {
            let n = unsafe { tree.base_mut().get_node_mut(rid) }.unwrap();
            let kids: Vec<RID> = n.children().iter().map(|k| k.rid()).collect();
            let Some(seen) = see(n) else { violate(format!("the tree holds a node of type {}", n.name_as_type())) };
            (seen, n.name().to_string(), n.is_owner(), kids)
        };
        Shape { seen, name, owner, children: kids.into_iter().map(|k| Live::of(tree, k)).collect() }
    }
}

/// Builds a scene anew out of copies of the nodes of another one, with an edit at one of them.
fn rebuild(s: &NodeScene, at: &mut usize, what: u64, c: &mut Ctx) -> NodeScene {
    let node = std::mem::ManuallyDrop::new(unsafe { s.get_node() });
    let mut n = node.clone_as_instance();
    n.set_name(node.name());
    let here = *at == 0;
    *at = at.wrapping_sub(1);
    if here && what == 2 {
        n.set_name("renamed");
        CLASSES.iter().any(|k| (k.touch)(&mut *n, c));
    }
    let mut out = NodeScene::new_dyn(n);
    for k in s.children() {
        let r = rebuild(k, at, what, c);
        if r.is_owner { out.append_as_owner(r) } else { out.append(r) }
    }
    if here && what == 1 {
        let n = NodeScene::new_dyn((CLASSES[0].make)(c, None));
        if c.flag() { out.append(n) } else { out.append_as_owner(n) }
    }
    out.is_owner = s.is_owner != (here && what == 0);
    out
}

/// Changes every node of a scene.
fn change(s: &mut NodeScene, c: &mut Ctx) {
    let mut node = std::mem::ManuallyDrop::new(unsafe { s.get_node() });
    let node: &mut dyn Node = &mut **node;
    CLASSES.iter().any(|k| (k.touch)(node, c));
    node.set_name("changed");
    s.is_owner = !s.is_owner;
    fn below(s: &NodeScene, c: &mut Ctx) {
        for k in s.children() {
            let mut node = std::mem::ManuallyDrop::new(unsafe { k.get_node() });
            CLASSES.iter().any(|k| (k.touch)(&mut **node, c));
            node.set_name("changed");
            below(k, c);
        }
    }
    below(s, c);
}
fn change_tree(tree: &mut TreeSimple, at: RID, c: &mut Ctx) {
    let n = unsafe { tree.base_mut().get_node_mut(at) }.unwrap();
    CLASSES.iter().any(|k| (k.touch)(n, c));
    n.set_name("changed");
}

pub fn check(c: &mut Ctx) {
    match c.pid {
        "P10" => save_and_load(c),
        "P12" => documents(c),
        _ => copies(c),
    }
}

fn build(c: &mut Ctx, max: usize) -> NodeScene {
    let budget = if c.thorough { max * 2 } else { max };
    let (style, budget) = match c.weighted(&[30, 1, 1, 1]) {
        0 => (Style::Bushy, budget),
        1 => (Style::Chain, budget + 6),
        2 => (Style::Wide, budget + 10),
        _ => (Style::Bushy, budget * 3),
    };
    if style != Style::Bushy {
        c.label(if style == Style::Chain { "deep scene" } else { "wide scene" });
    }
    let huge = max > 5 && c.chance(1, 400);
    let (style, budget, width) = match (huge, style) {
        (false, _) => (style, budget, 20),
        // What counts nodes, layers or children may do so in too few bits.
        (true, Style::Bushy) => (if c.flag() { Style::Chain } else { Style::Wide }, c.range(50, 400), 400),
        (true, _) => (style, c.range(100, 400), 400),
    };
    if huge {
        c.label("hundreds of nodes");
    }
    let mut b = Build { c, budget, style, width, huge };
    let s = b.scene(0);
    b.rework(s, 1)
}

/// A known finding: toml_write counts the quotes of a run in a byte, and overflows.
pub fn probe_quotes() -> Option<String> {
    let mut n = E1::new();
    *n.s = "\"".repeat(256);
    let s = NodeScene::new(n);
    match catches(|| s.save_to_str().and_then(|t| NodeScene::load_from_str(&t))) {
        Ok(Ok(l)) => Shape::of(&s).loaded().diff(&Shape::of(&l)),
        Ok(Err(e)) => Some(e),
        Err(e) => Some(format!("unexpected panic: {e}")),
    }
}

pub fn save_and_load(c: &mut Ctx) {
    let mut s = build(c, 8);
    if c.draw(6) == 5 {
        s.is_owner = false;
    }
    let before = Shape::of(&s);
    let hash = s.structural_hash();
    c.note(|| format!("scene: {before:?}"));
    c.nontrivial = before.count() > 1;
    c.label(if before.count() > 1 { "several nodes" } else { "one node" });
    let expect = before.clone().loaded();

    let on_disk = c.draw(4) == 3;
    let loaded = if on_disk {
        // The file's name is taken as it is.
        let mut stem = format!("saved-{}", std::process::id());
        stem += *c.pick(&["", "", ".b", ".scn", " x", "ö", ".", ".1.5", "_0"]);
        let mut dir = dir();
        match c.draw(8) {
            6 => {
                dir.push(format!("to.{}", std::process::id()));
                std::fs::create_dir_all(&dir).unwrap();
            }
            7 => {
                let r = catches(|| s.save(&dir.join("no").join("where"), &stem));
                ensure!(matches!(r, Ok(Err(_))), "saving to a folder that does not exist gives {r:?}");
            }
            _ => {}
        }
        let f = dir.join(format!("{stem}.scn"));
        if c.flag() {
            // Something longer was there before.
            let mut long = build(c, 6);
            long.append(s.clone());
            long.append(s.clone());
            if let Err(e) = long.save(&dir, &stem) {
                violate(format!("a scene cannot be saved: {e}"));
            }
        }
        c.label("file");
        if let Err(e) = s.save(&dir, &stem) {
            violate(format!("the scene cannot be saved: {e}"));
        }
        let l = NodeScene::load(&f);
        let _ = std::fs::remove_file(&f);
        l
    } else {
        match s.save_to_str() {
            Ok(t) => {
                c.note(|| format!("document:\n{t}"));
                NodeScene::load_from_str(&t)
            }
            Err(e) => violate(format!("the scene cannot be saved: {e}")),
        }
    };
    let loaded = match loaded {
        Ok(l) => l,
        Err(e) => violate(format!("the saved scene cannot be loaded: {e}")),
    };
    if let Some(d) = expect.diff(&Shape::of(&loaded)) {
        violate(format!("the scene changed by saving and loading: {d}"));
    }
    ensure!(loaded.structural_hash() == hash, "the structural hash changed by saving and loading");
    if let Some(d) = before.diff(&Shape::of(&s)) {
        violate(format!("saving changed the scene: {d}"));
    }
    ensure!(s.structural_hash() == hash, "saving changed the structural hash");

    // Once more, from the loaded scene, a clone of it or a branch of a tree of it.
    let (again, expect) = match c.draw(3) {
        0 => (loaded, expect),
        1 => (loaded.clone(), expect),
        _ if tree_safe(&expect) => {
            let mut tree = TreeSimple::new(loaded, LoggerVerbosity::NoDebug);
            let root = tree.root().rid();
            let mut live = Live::of(&mut tree, root);
            // The tree owns its root in any case and renames siblings; all else has to be there.
            fn same(a: &Shape, b: &Shape) -> bool {
                a.seen == b.seen && a.children.len() == b.children.len() && a.children.iter().zip(&b.children).all(|(x, y)| same(x, y))
            }
            ensure!(same(&expect, &live), "a tree of the loaded scene holds {live:?} and not {expect:?}");
            live.owner = true;
            let b = unsafe { tree.base_mut().get_node_mut(root) }.unwrap().save_as_branch();
            (b, live)
        }
        _ => (loaded, expect),
    };
    c.steps += 1;
    match again.save_to_str().map(|t| NodeScene::load_from_str(&t)) {
        Ok(Ok(l)) => {
            if let Some(d) = expect.loaded().diff(&Shape::of(&l)) {
                violate(format!("the scene changed by saving and loading it again: {d}"));
            }
        }
        e => violate(format!("the scene cannot be saved and loaded again: {e:?}")),
    }
}

pub fn copies(c: &mut Ctx) {
    let s = build(c, 7);
    let before = Shape::of(&s);
    c.note(|| format!("scene: {before:?}"));
    c.nontrivial = before.count() > 1;
    c.label("rich scene");
    let mut copy = s.clone();
    let expect = before.clone().cloned();
    if let Some(d) = expect.diff(&Shape::of(&copy)) {
        violate(format!("a clone differs: {d}"));
    }
    if let Some(d) = before.diff(&Shape::of(&s)) {
        violate(format!("cloning changed the scene: {d}"));
    }
    ensure!(copy.structural_hash() == s.structural_hash(), "a clone has another structural hash");
    // The hash tells structures apart, and nothing else.
    let mut other = if c.flag() { s.clone() } else { build(c, 3) };
    for _ in 0..c.below(3) {
        let mut at = c.below(Shape::of(&other).count());
        let what = c.draw(4);
        other = rebuild(&other, &mut at, what, c);
    }
    let (x, y) = (Shape::of(&s).structure(), Shape::of(&other).structure());
    ensure!((x == y) == (s.structural_hash() == other.structural_hash()),
        "the structural hashes are {} for {x} and {y}", if x == y { "different" } else { "the same" });
    use std::hash::{DefaultHasher, Hash, Hasher};
    let h = |s: &NodeScene| {
        let mut h = DefaultHasher::new();
        s.hash(&mut h);
        h.finish()
    };
    ensure!((x == y) == (h(&s) == h(&other)), "the hashes of {x} and {y} do not compare like their structures");
    c.label(if x == y { "same structure" } else { "other structure" });
    if let Some(d) = before.diff(&Shape::of(&s)) {
        violate(format!("changing another scene changed the scene: {d}"));
    }
    change(&mut copy, c);
    if let Some(d) = before.diff(&Shape::of(&s)) {
        violate(format!("changing a clone changed the scene: {d}"));
    }
    // A tree made of a clone leaves the scene alone.
    if tree_safe(&before) {
        let s2 = s.clone();
        let mut tree = TreeSimple::new(s2, LoggerVerbosity::NoDebug);
        let root = tree.root().rid();
        change_tree(&mut tree, root, c);
        let all = unsafe { tree.base_mut().get_node_mut(root) }.unwrap().top_down(true);
        let at = *c.pick(&all);
        unsafe { tree.base_mut().get_node_mut(at) }.unwrap().free();
        if let Some(d) = before.diff(&Shape::of(&s)) {
            violate(format!("changing a tree of a clone changed the scene: {d}"));
        }
    }
}

// Documents.

/// What loading a document has to give.
struct Expect {
    /// An error is one of the allowed results.
    err: bool,
    /// The scene that it means, if it may mean one.
    scene: Option<Shape>,
    /// Nothing is said about the result.
    open: bool,
    why: String,
}

fn as_table_like(i: &Item) -> Option<Vec<(String, Item)>> {
    i.as_table_like().map(|t| t.iter().map(|(k, v)| (k.to_string(), v.clone())).collect())
}

fn reference(doc: &str) -> Expect {
    let fail = |why: String| Expect { err: true, scene: None, open: false, why };
    let doc: DocumentMut = match doc.parse() {
        Ok(d) => d,
        Err(_) => return fail("not TOML".into()),
    };
    let mut unsure = false;
    struct Rec {
        id: u64,
        shape: Shape,
        parent: usize,
    }
    let mut nodes: Vec<Rec> = Vec::new();
    let mut ids: HashSet<u64> = HashSet::new();
    let mut odd_ids = false;
    let keys: Vec<String> = doc.iter().map(|(k, _)| k.to_string()).collect();
    // The ids, for what is outside of the domain.
    for (i, k) in keys.iter().enumerate() {
        if let Some(id) = k.rsplit_once('_').and_then(|(_, n)| n.parse::<u64>().ok()) {
            odd_ids |= !ids.insert(id) || (i == 0 && id != 0) || (i > 0 && id == 0) || id > i64::MAX as u64;
        }
    }
    for (key, item) in doc.iter() {
        unsure |= item.as_table().is_none();
        let Some(fields) = as_table_like(item) else { return fail(format!("{key} is no table")) };
        let Some((_, meta)) = fields.iter().find(|(k, _)| k == "metadata") else { return fail(format!("{key} has no metadata")) };
        unsure |= meta.as_inline_table().is_none();
        let Some(meta) = as_table_like(meta) else { return fail(format!("the metadata of {key} is no table")) };
        let get = |n: &str| meta.iter().find(|(k, _)| k == n).map(|(_, v)| v.clone());
        unsure |= meta.iter().any(|(k, _)| !["type_name", "is_owner", "parent"].contains(&k.as_str()));
        let Some(ty) = get("type_name").and_then(|v| v.as_str().map(|s| s.to_string())) else { return fail(format!("{key} has no type name")) };
        let Some(owner) = get("is_owner").and_then(|v| v.as_bool()) else { return fail(format!("{key} has no is_owner")) };
        let Some((name, id)) = key.rsplit_once('_') else { return fail(format!("{key} has no id")) };
        let canonical = !id.is_empty() && id.bytes().all(|b| b.is_ascii_digit()) && (id == "0" || !id.starts_with('0'));
        let Ok(id) = id.parse::<u64>() else { return fail(format!("{key} has a malformed id")) };
        unsure |= !canonical;
        let Some(class) = CLASSES.iter().find(|k| k.name == ty) else { return fail(format!("{key} is of an unknown type")) };
        let mut exported = BTreeMap::new();
        for (f, read) in class.fields {
            let Some((_, item)) = fields.iter().find(|(k, _)| k == f) else { return fail(format!("{key} lacks {f}")) };
            let value = match item {
                Item::Value(v) => v.clone(),
                // A table may be accepted instead of an inline table, but nothing else.
                Item::Table(t) => {
                    unsure = true;
                    Value::InlineTable(t.clone().into_inline_table())
                }
                _ => {
                    unsure = true;
                    Value::from(0)
                }
            };
            let (a, v) = match catches(|| read(&value)) {
                Ok(r) => r,
                Err(e) => violate(format!("reading {value} as {f} panicked: {e}")),
            };
            match (a, v) {
                (Admits::No, _) | (_, None) if !matches!(item, Item::Value(_)) => return fail(format!("{f} of {key} is ill-typed")),
                (Admits::No, _) => return fail(format!("{f} of {key} is ill-typed")),
                (a, Some(v)) => {
                    unsure |= a == Admits::Open;
                    exported.insert(*f, v);
                }
                (Admits::Open, None) => return fail(format!("{f} of {key} is refused")),
                (Admits::Yes, None) => {
                    // Left to the check of P11.
                    unsure = true;
                    return Expect { err: true, scene: None, open: true, why: String::new() };
                }
            }
        }
        unsure |= fields.iter().any(|(k, _)| k != "metadata" && !class.fields.iter().any(|(f, _)| f == k));
        let seen = Seen { class: class.name, exported, plain: None, unique: None, default: 0u16.show() };
        let parent = get("parent").and_then(|p| p.as_integer());
        let parent = if nodes.is_empty() {
            unsure |= get("parent").is_some();
            0
        } else {
            let Some(p) = parent else { return if odd_ids { open() } else { fail(format!("{key} has no parent")) } };
            match nodes.iter().position(|n| p >= 0 && n.id == p as u64) {
                Some(i) => i,
                None => return if odd_ids { open() } else { fail(format!("the parent of {key} was not declared before")) },
            }
        };
        nodes.push(Rec { id, shape: Shape { seen, name: name.to_string(), owner, children: vec![] }, parent });
    }
    if nodes.is_empty() {
        return fail("there is no node".into());
    }
    fn open() -> Expect {
        Expect { err: true, scene: None, open: true, why: String::new() }
    }
    if odd_ids {
        return open();
    }
    fn tree(nodes: &[Rec], i: usize) -> Shape {
        let mut s = nodes[i].shape.clone();
        s.children = (1..nodes.len()).filter(|&j| nodes[j].parent == i).map(|j| tree(nodes, j)).collect();
        s
    }
    Expect { err: unsure, scene: Some(tree(&nodes, 0)), open: false, why: String::new() }
}

fn judge(c: &mut Ctx, doc: &str, got: Result<NodeScene, String>, how: &str) {
    let e = reference(doc);
    c.note(|| format!("{how}: {}", match &got { Ok(_) => "loaded".to_string(), Err(e) => format!("error: {}", e.lines().next().unwrap_or("")) }));
    let shape = got.as_ref().ok().map(Shape::of);
    let class = match (&e, &got) {
        (Expect { open: true, .. }, _) => "outside the domain",
        (_, Ok(_)) => "loaded",
        (_, Err(_)) => "refused",
    };
    c.label(class);
    if e.open {
        return;
    }
    if class == "refused" && e.scene.is_none() {
        const KINDS: &[&str] = &["not TOML", "is no table", "has no metadata", "has no type name", "has no is_owner", "has no id", "malformed id",
            "unknown type", " lacks ", "ill-typed", "has no parent", "not declared before", "no node"];
        c.label(&format!("refused: {}", KINDS.iter().find(|k| e.why.contains(*k)).unwrap_or(&"other")));
    }
    match (shape, e.scene) {
        (None, None) => {}
        (None, Some(_)) => ensure!(e.err, "{how}: the document is in order but refused: {}", got.err().unwrap_or_default()),
        (Some(_), None) => violate(format!("{how}: a document was loaded although {}", e.why)),
        (Some(s), Some(want)) => {
            if let Some(d) = want.diff(&s) {
                violate(format!("{how}: the loaded scene differs from its document: {d}"));
            }
        }
    }
}

/// A document with a node of every line, written out by hand.
fn written(c: &mut Ctx) -> String {
    let s = build(c, 6);
    match s.save_to_str() {
        Ok(t) => t,
        Err(e) => violate(format!("the scene cannot be saved: {e}")),
    }
}

fn key_of(c: &mut Ctx, doc: &DocumentMut) -> Option<String> {
    let keys: Vec<String> = doc.iter().map(|(k, _)| k.to_string()).collect();
    if keys.is_empty() { None } else { Some(c.pick(&keys).clone()) }
}

/// An item of another kind.
fn odd_item(c: &mut Ctx) -> Item {
    match c.draw(5) {
        0 => Item::Table(Table::new()),
        1 => {
            let mut t = Table::new();
            t["x"] = toml_edit::value(1);
            Item::Table(t)
        }
        2 => Item::ArrayOfTables([Table::new()].into_iter().collect()),
        _ => Item::Value(any_value(c, 0)),
    }
}

fn edit(c: &mut Ctx, doc: &mut DocumentMut) {
    let Some(key) = key_of(c, doc) else { return };
    let what = c.draw(15);
    c.note(|| format!("edit {what} at {key:?}"));
    let rename = |doc: &mut DocumentMut, to: &str| {
        // Keeps the order.
        let all: Vec<(String, Item)> = doc.iter().map(|(k, v)| (k.to_string(), v.clone())).collect();
        let mut new = DocumentMut::new();
        for (i, (k, mut v)) in all.into_iter().enumerate() {
            if let Item::Table(t) = &mut v {
                t.set_position(i);
            }
            let k = if k == key { to.to_string() } else { k };
            new.insert(&k, v);
        }
        *doc = new;
    };
    match what {
        // Metadata.
        0..=4 => {
            let Some(meta) = doc.get_mut(&key).and_then(|t| t.get_mut("metadata")).and_then(|m| m.as_inline_table_mut()) else { return };
            let ids = [0i64, 1, 2, 3, 4, 5, 6, 7, -1, i64::MAX, i64::MIN];
            match what {
                0 => {
                    let v = match c.draw(4) {
                        0 => any_value(c, 1),
                        1 => Value::from(*c.pick(&ids) as f64),
                        2 => Value::from(c.pick(&ids).to_string()),
                        _ => Value::from(*c.pick(&ids)),
                    };
                    meta.insert("parent", v);
                }
                1 => {
                    let k = *c.pick(&["parent", "type_name", "is_owner"]);
                    meta.remove(k);
                }
                2 => {
                    let v = match c.draw(4) {
                        0 => any_value(c, 1),
                        1 => Value::from(format!("ntcheck::p_scene::E{}", c.draw(9))),
                        2 => Value::from(*c.pick(&["E0", "", "ntcheck::p_scene::F1", "ntcheck::E1", "ntcheck::p_scene::inner::E1", "node_tree", "ntcheck::p_scene::e1",
                            "E1", "p_scene::E1", "other::p_scene::E1", " ntcheck::p_scene::E1", "ntcheck::p_scene::E1 ", "::ntcheck::p_scene::E1",
                            "ntcheck::p_scene::E1::", "ntcheck::p_scene::E1<u8>", "ntcheck/p_scene/E1", "ntcheck::p_scene:: E1"])),
                        _ => Value::from(c.pick(CLASSES).name),
                    };
                    meta.insert("type_name", v);
                }
                3 => {
                    let v = if c.flag() { any_value(c, 1) } else { Value::from(c.flag()) };
                    meta.insert("is_owner", v);
                }
                _ => {
                    let k = a_string(c, 3);
                    meta.insert(&k, any_value(c, 1));
                }
            }
        }
        // A field.
        5..=8 => {
            let Some(t) = doc.get_mut(&key).and_then(|t| t.as_table_mut()) else { return };
            let names: Vec<String> = t.iter().map(|(k, _)| k.to_string()).filter(|k| what == 8 || k != "metadata").collect();
            if names.is_empty() {
                return;
            }
            let f = c.pick(&names).clone();
            match what {
                5 => {
                    if let Some(v) = t.get(&f).and_then(|i| i.as_value()).cloned() {
                        t[&f] = Item::Value(mutate(c, &v, 0));
                    }
                }
                6 => {
                    t.remove(&f);
                }
                7 => {
                    let to = match c.draw(3) {
                        0 => f.clone(),
                        1 => c.pick(&["n", "s", "plain", "uniq", "dflt", "sig", "base", "x", "metadata"]).to_string(),
                        _ => a_string(c, 3),
                    };
                    let i = odd_item(c);
                    t.insert(&to, i);
                }
                _ => {
                    let i = odd_item(c);
                    t.insert(&f, i);
                }
            }
        }
        // A key.
        9 | 10 => {
            let (name, id) = key.rsplit_once('_').map(|(a, b)| (a.to_string(), b.to_string())).unwrap_or((key.clone(), "0".into()));
            let to = match c.draw(10) {
                0 => name,
                1 => format!("{name}{id}"),
                2 => format!("{name}_"),
                3 => format!("{name}_{id}x"),
                4 => format!("{name}_-{id}"),
                5 => format!("{name}_18446744073709551616"),
                6 => format!("{name}_{}", c.draw(12)),
                7 => format!("{name}_{id} "),
                8 => format!("{name}_{}{id}", c.pick(&["0", "+", " ", "²", "٣"])),
                _ => format!("{}_{id}", a_string(c, 4)),
            };
            if doc.get(&to).is_none() {
                rename(doc, &to);
            }
        }
        // A whole node.
        11 => {
            doc.remove(&key);
        }
        12 => {
            let i = odd_item(c);
            let k = if c.flag() { key.clone() } else { format!("{}_{}", a_string(c, 3), c.draw(12)) };
            doc.insert(&k, i);
        }
        // The order.
        13 => {
            let mut all: Vec<(String, Item)> = doc.iter().map(|(k, v)| (k.to_string(), v.clone())).collect();
            let (i, j) = (c.below(all.len()), c.below(all.len()));
            all.swap(i, j);
            let mut new = DocumentMut::new();
            for (i, (k, mut v)) in all.into_iter().enumerate() {
                if let Item::Table(t) = &mut v {
                    t.set_position(i);
                }
                new.insert(&k, v);
            }
            *doc = new;
        }
        // The notation.
        _ => {
            if let Some(t) = doc.get(&key).and_then(|t| t.as_table()).cloned() {
                if c.flag() {
                    let mut it = InlineTable::new();
                    for (k, v) in t.iter() {
                        if let Item::Value(v) = v {
                            it.insert(k, v.clone());
                        }
                    }
                    doc.insert(&key, Item::Value(Value::InlineTable(it)));
                } else if let Some(m) = t.get("metadata").and_then(|m| m.as_inline_table()).cloned() {
                    let mut t = t;
                    let mut sub = Table::new();
                    for (k, v) in m.iter() {
                        sub.insert(k, Item::Value(v.clone()));
                    }
                    t.insert("metadata", Item::Table(sub));
                    doc.insert(&key, Item::Table(t));
                }
            }
        }
    }
}

const TOKENS: &[&str] = &["[", "]", "[[", "]]", "{", "}", "=", ",", ".", "\n", " ", "\"", "'", "\"\"\"", "#", "_", "0", "1", "-", "inf", "nan", "true", "metadata",
    "type_name", "is_owner", "parent", "A_0", "[A_0]\n", "metadata = { type_name = \"ntcheck::p_scene::E0\", is_owner = true }\n",
    "metadata = { type_name = \"ntcheck::p_scene::E0\", is_owner = true, parent = 0 }\n", "[B_1]\n", "[C_2]\n", "\\", "\\u0000", "1e999", "1979-05-27T07:32:00Z", "é", "\u{0}",
    "x = 1\n", "a.b", "\r\n", "\t", "0x", "1_000", "99999999999999999999"];

/// Changes the text of a document.
fn scramble(c: &mut Ctx, doc: &str) -> String {
    match c.draw(5) {
        0 => {
            let mut s: Vec<char> = doc.chars().collect();
            for _ in 0..c.range(1, 3) {
                let i = c.below(s.len() + 1);
                match c.draw(3) {
                    0 => {
                        let t = *c.pick(TOKENS);
                        s.splice(i..i, t.chars());
                    }
                    1 if i < s.len() => {
                        let n = (i + 1 + c.below(4)).min(s.len());
                        s.drain(i..n);
                    }
                    _ if i < s.len() => s[i] = crate::p_value::a_char(c),
                    _ => {}
                }
            }
            s.into_iter().collect()
        }
        1 => {
            let mut l: Vec<&str> = doc.lines().collect();
            if !l.is_empty() {
                let (i, j) = (c.below(l.len()), c.below(l.len()));
                match c.draw(3) {
                    0 => { l.remove(i); }
                    1 => l.swap(i, j),
                    _ => { let x = l[i]; l.insert(j, x); }
                }
            }
            l.join("\n")
        }
        2 => {
            let s: Vec<char> = doc.chars().collect();
            let n = c.below(s.len() + 1);
            s[..n].iter().collect()
        }
        3 => format!("{doc}\n{}", (0..c.range(1, 6)).map(|_| *c.pick(TOKENS)).collect::<String>()),
        _ => {
            // Harmless changes.
            let mut out = String::new();
            for l in doc.lines() {
                match c.draw(6) {
                    5 => out += "# a comment\n",
                    4 => out += "\n   \t\n",
                    _ => {}
                }
                out += l;
                if c.draw(4) == 3 {
                    out += "   # why not";
                }
                out += if c.draw(8) == 7 { "\r\n" } else { "\n" };
            }
            out
        }
    }
}

fn deep(c: &mut Ctx) -> String {
    let n = 1usize << c.draw(13);
    match c.draw(4) {
        0 => format!("x = {}", "[".repeat(n)),
        1 => format!("x = {}1{}", "[".repeat(n), "]".repeat(n)),
        2 => format!("[A_0]\nx = {}1{}", "{a=".repeat(n), "}".repeat(n)),
        _ => format!("[{}a]\nx = 1", "a.".repeat(n)),
    }
}

pub fn documents(c: &mut Ctx) {
    let doc = match c.draw(8) {
        0 => (0..c.below(12)).map(|_| *c.pick(TOKENS)).collect::<String>(),
        1 if c.draw(6) == 5 => deep(c),
        kind => {
            c.nontrivial = true;
            let text = written(c);
            match text.parse::<DocumentMut>() {
                Err(_) => text,
                Ok(mut d) => {
                    let n = *c.pick(&[0, 0, 1, 1, 1, 2, 3]);
                    for _ in 0..n {
                        edit(c, &mut d);
                    }
                    let t = if n == 0 && c.flag() { text } else { d.to_string() };
                    if kind >= 6 { scramble(c, &t) } else { t }
                }
            }
        }
    };
    c.note(|| format!("document:\n{doc}"));
    let got = match catches(|| NodeScene::load_from_str(&doc)) {
        Ok(g) => g,
        Err(e) => violate(format!("load_from_str panicked: {e}")),
    };
    judge(c, &doc, got, "load_from_str");
    if c.draw(5) == 4 {
        from_file(c, &doc);
    }
}

fn from_file(c: &mut Ctx, doc: &str) {
    let f = file("doc");
    let mut path = f.clone();
    let mut bytes = doc.as_bytes().to_vec();
    let mut refuse = None;
    match c.draw(10) {
        0 => {
            let i = c.below(bytes.len() + 1);
            let b = *c.pick(&[0xffu8, 0xc0, 0x80, 0xed]);
            bytes.insert(i, b);
            if std::str::from_utf8(&bytes).is_err() {
                refuse = Some("it is not UTF-8");
            }
        }
        1 => {
            let e = *c.pick(&["toml", "SCN", "scn2", "sc", "txt"]);
            path = f.with_extension(e);
            refuse = Some("it has another extension");
        }
        2 => {
            path = f.with_extension("");
            refuse = Some("it has no extension");
        }
        3 => refuse = Some("it does not exist"),
        4 => refuse = Some("it is a directory"),
        5 => {
            path = dir().join(format!("sub-{}", std::process::id())).join(".scn");
            refuse = Some("it has no extension");
        }
        _ => {}
    }
    match refuse {
        Some("it does not exist") => {}
        Some("it is a directory") => std::fs::create_dir_all(&path).unwrap(),
        _ => {
            std::fs::create_dir_all(path.parent().unwrap()).unwrap();
            std::fs::write(&path, &bytes).unwrap();
        }
    }
    c.note(|| format!("file: {refuse:?}"));
    let got = catches(|| NodeScene::load(Path::new(&path)));
    if refuse == Some("it is a directory") {
        let _ = std::fs::remove_dir(&path);
    } else {
        let _ = std::fs::remove_file(&path);
    }
    let got = match got {
        Ok(g) => g,
        Err(e) => violate(format!("load panicked: {e}")),
    };
    match refuse {
        Some(why) => {
            c.label("bad file");
            ensure!(got.is_err(), "a file was loaded although {why}");
        }
        None => match String::from_utf8(bytes) {
            Ok(t) => judge(c, &t, got, "load"),
            Err(_) => unreachable!(),
        },
    }
}
