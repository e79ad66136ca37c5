//! A tree under test together with the reference model of what it must look like, and the checks of
//! the events (hooks, drops, log entries) that a history produces.

use crate::engine::*;
use crate::ensure;
use crate::nodes::*;
use crate::with_class;
use node_tree::prelude::*;
use node_tree::structs::node_base::NodeStatus;
use node_tree::structs::node_tree_base::NodeIdentity;
use std::cell::Cell;
use std::collections::{BTreeMap, BTreeSet};
use std::time::Instant;

#[derive(Debug, Clone, Copy, PartialEq)]
pub enum Hook {
    Loaded,
    Ready,
    Process,
    Terminal(TerminationReason),
}

thread_local! {
    pub static CURRENT: Cell<*mut World> = const { Cell::new(std::ptr::null_mut()) };
    /// What the handlers of signals saw, in order.
    pub static SIGNALS: std::cell::RefCell<Vec<(u64, i64)>> = const { std::cell::RefCell::new(Vec::new()) };
}

pub fn current() -> Option<&'static mut World> {
    let p = CURRENT.try_with(|c| c.get()).unwrap_or(std::ptr::null_mut());
    if p.is_null() { None } else { Some(unsafe { &mut *p }) }
}

pub fn hook(kind: Hook, serial: u64, rid: RID, tree: Option<*mut dyn NodeTree>, delta: f32, just: bool) {
    if let Some(w) = current() {
        if w.tree.is_none() {
            w.tree = tree;
        }
        if w.wild {
            return w.wild_hook(Some(rid));
        }
        w.on_hook(kind, serial, delta, just);
    }
}

/// A node's destructor runs.
pub fn destructed(n: &mut dyn Node) {
    if let Some(w) = current().filter(|w| w.pid == "P21" && !std::thread::panicking()) {
        w.on_destruct(n);
    }
}

/// A node is made or cloned, which may panic.
pub fn born() {
    if let Some(w) = current().filter(|w| w.wild && !std::thread::panicking()) {
        if w.budget > 0 && w.c().chance(1, 40) {
            w.c().label("making a node panics");
            w.c().note(|| "making a node panics".into());
            std::panic::panic_any(Boom);
        }
    }
}

pub fn dropped(serial: u64) {
    if let Some(w) = current() {
        w.on_drop(serial);
    }
}

pub fn signal(serial: u64, v: i64) {
    SIGNALS.with(|s| s.borrow_mut().push((serial, v)));
}

pub fn mode_of(serial: u64) -> ProcessMode {
    current().and_then(|w| w.modes.get(&serial).copied()).unwrap_or(ProcessMode::Inherit)
}

/// What a scene must contain.
#[derive(Debug, Clone, PartialEq)]
pub struct MScene {
    pub class: u8,
    pub name: String,
    pub val: i64,
    pub note: Option<i64>,
    pub uniq: Option<i64>,
    pub from_disk: bool,
    pub owner: bool,
    pub kids: Vec<MScene>,
    /// 1: it went through a text or a file, 2: it was copied.
    pub origin: u8,
}

impl MScene {
    pub fn size(&self) -> usize {
        1 + self.kids.iter().map(|k| k.size()).sum::<usize>()
    }
    pub fn map(&mut self, f: &mut impl FnMut(&mut MScene)) {
        f(self);
        for k in &mut self.kids {
            k.map(f);
        }
    }
    pub fn cloned(&self) -> MScene {
        let mut s = self.clone();
        s.map(&mut |n| {
            n.uniq = None;
            n.origin |= 2;
        });
        s
    }
    pub fn loaded(&self) -> MScene {
        let mut s = self.clone();
        s.map(&mut |n| {
            n.uniq = None;
            n.note = None;
            n.from_disk = true;
            n.origin |= 1;
        });
        s
    }
    pub fn text(&self) -> String {
        let kids: Vec<String> = self.kids.iter().map(|k| k.text()).collect();
        let flags = format!("{}{}", if self.owner { "*" } else { "" }, if self.from_disk { "~" } else { "" });
        format!("{}{}:{:?}({})", CLASS_NAMES[self.class as usize], flags, self.name, kids.join(" "))
    }
}

#[derive(Debug, Clone, PartialEq)]
pub enum MStat {
    Normal,
    Warned(String),
    Panicked(String),
    Unknown,
}

#[derive(Debug, Clone)]
pub struct MNode {
    pub rid: RID,
    pub class: u8,
    pub name: String,
    pub parent: Option<u64>,
    pub owner: u64,
    pub depth: usize,
    pub kids: Vec<u64>,
    pub val: i64,
    pub note: Option<i64>,
    pub uniq: Option<i64>,
    pub status: MStat,
    pub ident: Option<String>,
    pub locked: bool,
}

#[derive(Debug, Clone, Copy, PartialEq)]
pub enum TStat {
    Proc(bool),
    Queued(bool),
    Terminating,
    Terminated,
}

/// A call into the library that can call hooks, and is not finished yet.
pub enum Layer {
    Add {
        parent: Option<u64>,
        shape: MScene,
        plain: bool,
        /// Whether ready() must not be called.
        quiet: bool,
        synced: bool,
        nodes: Vec<u64>,
        expects_loaded: BTreeSet<u64>,
        loaded: BTreeSet<u64>,
        ready: BTreeSet<u64>,
        last: Option<(Hook, u64)>,
    },
    Remove { reason: TerminationReason, branch: Vec<u64>, seen: BTreeSet<u64> },
    Frame(Frame),
}

pub struct Frame {
    kind: FrameKind,
    start: Vec<u64>,
    done: BTreeMap<u64, Option<u64>>,
    delta: Option<f32>,
    first: Option<Instant>,
    pauses: BTreeSet<bool>,
    unclear: BTreeSet<u64>,
    terminated: bool,
}

#[derive(Clone, Copy, PartialEq)]
enum FrameKind {
    Process,
    Exit,
    Dead,
}

/// A log entry that must appear.
#[derive(Debug, Clone)]
pub struct Entry {
    pub level: &'static str,
    pub system: String,
    pub msg: Option<String>,
    pub crash: Option<(String, String, Option<String>)>,
}

pub enum HeldPtr {
    Dyn(TpDyn<'static>),
    T0(Tp<'static, N0>),
    T1(Tp<'static, N1>),
    T2(Tp<'static, N2>),
    T3(Tp<'static, N3>),
    T4(Tp<'static, N4>),
}

pub struct Held {
    pub ptr: HeldPtr,
    pub owner: u64,
    pub target: u64,
}

pub struct World {
    pub c: *mut Ctx,
    pub tree: Option<*mut dyn NodeTree>,
    boxed: Option<*mut dyn NodeTree>,
    pub verbosity: LoggerVerbosity,
    pub alive: BTreeMap<u64, MNode>,
    pub dead: Vec<(u64, RID)>,
    pub used_rids: BTreeSet<RID>,
    /// The nodes that came from text or disk.
    pub disk: BTreeSet<u64>,
    pub root: Option<u64>,
    pub status: TStat,
    pub singles: BTreeMap<String, u64>,
    pub modes: BTreeMap<u64, ProcessMode>,
    pub stack: Vec<Layer>,
    pub held: Vec<Held>,
    pub pool: Vec<(NodeScene, MScene)>,
    pub entries: Vec<Entry>,
    pub log_pos: usize,
    /// P14: what is printed, and how far it was compared.
    pub printed: Option<&'static Printed>,
    pub print_pos: u64,
    pub header: Option<String>,
    pub footer: Option<String>,
    pub events: usize,
    pub adds: usize,
    pub removes: usize,
    pub budget: usize,
    /// Whether this is one of the rare large histories.
    pub big: bool,
    /// Whether this is one of the rarer still histories whose tree begins with hundreds of nodes.
    pub huge: bool,
    /// Factors for the operations' weights, in halves.
    pub swarm: Vec<u64>,
    pub last_msg: Option<String>,
    /// After a panic nothing is compared with the model any more.
    pub numb: bool,
    /// There is no model at all.
    pub wild: bool,
    pub depth: usize,
    pub next_val: i64,
    /// The number of the first instance of this history.
    pub first: u64,
    pub prev_frame: (Instant, Instant),
    pub acts: Option<fn(&mut World, u64)>,
    pub pid: &'static str,
}

impl Drop for World {
    fn drop(&mut self) {
        CURRENT.with(|c| c.set(std::ptr::null_mut()));
        if let Some(t) = self.boxed {
            if !std::thread::panicking() {
                drop(unsafe { Box::from_raw(t) });
            }
        }
    }
}

#[derive(Debug, Tree)]
pub struct OwnTree {
    base: Option<NodeTreeBase>,
}

/// The closest free numeric suffix.
pub fn unique_name(name: &str, taken: &[String]) -> String {
    if !taken.iter().any(|t| t == name) {
        return name.to_string();
    }
    let digits = name.bytes().rev().take_while(|b| b.is_ascii_digit()).count();
    let (stem, digits) = name.split_at(name.len() - digits);
    let (stem, mut n) = match digits.parse::<u32>() {
        Ok(n) => (stem, n as u64),
        Err(_) => (name, 0),
    };
    loop {
        n += 1;
        let new = format!("{stem}{n}");
        if !taken.contains(&new) {
            return new;
        }
    }
}

impl World {
    pub fn c(&self) -> &'static mut Ctx {
        unsafe { &mut *self.c }
    }

    /// A check of some properties has failed.
    pub fn fail(&self, tags: &[&str], msg: impl Into<String>) -> ! {
        let msg = msg.into();
        if tags.contains(&self.pid) {
            violate(msg)
        }
        if self.c().tracing {
            let m = format!("DIVERGED ({tags:?}): {msg}");
            self.c().note(|| m);
        }
        if std::env::var_os("NTCHECK_DIVERGED").is_some() {
            eprintln!("DIVERGED ({tags:?}): {msg}");
        }
        discard("diverged")
    }
    /// Like `fail`, but goes on when it's about other properties.
    pub fn soft(&self, tags: &[&str], msg: impl FnOnce() -> String) {
        if tags.contains(&self.pid) {
            violate(msg())
        }
    }
    /// Calls the library, where it must not panic.
    pub fn lib<R>(&self, tags: &[&str], what: &str, f: impl FnOnce() -> R) -> R {
        match catches(f) {
            Ok(r) => r,
            Err(m) => self.fail(tags, format!("{what} panicked: {m}")),
        }
    }

    pub fn tree(&self) -> &'static mut dyn NodeTree {
        unsafe { &mut *self.tree.unwrap() }
    }
    pub fn base(&self) -> &'static mut NodeTreeBase {
        self.tree().base_mut()
    }
    pub fn m(&self, s: u64) -> &MNode {
        &self.alive[&s]
    }
    pub fn node(&self, s: u64) -> &'static mut dyn Node {
        let rid = self.m(s).rid;
        match self.base().get_node_mut(rid) {
            Some(n) => n,
            None => self.fail(&["P01", "P03", "P09"], format!("{} is not in the tree anymore", self.who(s))),
        }
    }
    pub fn who(&self, s: u64) -> String {
        match self.alive.get(&s) {
            Some(m) => format!("#{s}({:?} rid {})", m.name, m.rid),
            None => format!("#{s}(removed)"),
        }
    }
    pub fn path_names(&self, s: u64) -> Vec<String> {
        let mut names = vec![self.m(s).name.clone()];
        let mut p = self.m(s).parent;
        while let Some(x) = p {
            names.insert(0, self.m(x).name.clone());
            p = self.m(x).parent;
        }
        names
    }
    pub fn preorder(&self, s: u64) -> Vec<u64> {
        let mut out = vec![s];
        for k in self.m(s).kids.clone() {
            out.extend(self.preorder(k));
        }
        out
    }
    pub fn is_ancestor_or_self(&self, a: u64, mut s: u64) -> bool {
        loop {
            if a == s {
                return true;
            }
            match self.m(s).parent {
                Some(p) => s = p,
                None => return false,
            }
        }
    }
    pub fn any_locked(&self) -> bool {
        self.alive.values().any(|n| n.locked)
    }
    /// Whether a node can be removed now: nothing below it is being removed already.
    pub fn removable(&self, s: u64) -> bool {
        self.preorder(s).iter().all(|x| !self.m(*x).locked)
    }

    /// Creates a tree from a scene (or a plain node), in place of the current one.
    pub fn create(&mut self, scene: Option<NodeScene>, shape: MScene) {
        CURRENT.with(|c| c.set(self));
        self.stack.push(Layer::Add {
            parent: None,
            shape: shape.clone(),
            plain: scene.is_none(),
            quiet: false,
            synced: false,
            nodes: vec![],
            expects_loaded: BTreeSet::new(),
            loaded: BTreeSet::new(),
            ready: BTreeSet::new(),
            last: None,
        });
        let own = self.c().chance(1, 4);
        let verbosity = self.verbosity.clone();
        self.c().note(|| format!("create tree {} verbosity {:?}", shape.text(), verbosity));
        let before = Instant::now();
        let v = self.verbosity.clone();
        let tree: *mut dyn NodeTree = self.lib(&["P01", "P06", "P07", "P08", "P09"], "creating the tree", || {
            fn mk<I: Instanceable>(i: I, v: LoggerVerbosity, own: bool) -> *mut dyn NodeTree {
                if own {
                    let mut t = Box::new(OwnTree { base: None });
                    initialize_base(&mut t, i, v);
                    Box::into_raw(t) as *mut dyn NodeTree
                } else {
                    Box::into_raw(node_tree::trees::TreeSimple::new(i, v)) as *mut dyn NodeTree
                }
            }
            match scene {
                Some(s) => mk(s, v, own),
                None => with_class!(shape.class, T => {
                    let mut n = T::new();
                    n.set_name(&shape.name);
                    *n.val = shape.val;
                    *n.note = shape.note.unwrap();
                    mk(n, v, own)
                }),
            }
        });
        self.prev_frame = (before, Instant::now());
        self.tree = Some(tree);
        self.boxed = Some(tree);
        self.finish_add();
    }

    /// Adds a scene, or a plain node, to a node.
    pub fn add(&mut self, to: u64, scene: Option<NodeScene>, shape: MScene) {
        self.c().note(|| format!("{}.add_child({}{})", self.who(to), if scene.is_some() { "scene " } else { "" }, shape.text()));
        self.c().label("add");
        let node = self.node(to);
        // The unsafe variant for one node, which says who is its owner and whether it is made ready.
        let raw = scene.is_none() && self.c().chance(1, 6);
        let (owner, quiet) = (raw && self.c().flag(), raw && self.c().chance(1, 3));
        let mut shape = shape;
        if raw {
            shape.owner = owner;
            self.c().label("add_child_from_ptr");
            self.c().note(|| format!("    by add_child_from_ptr, owner: {owner}, ignore ready: {quiet}"));
        }
        self.adds += 1;
        self.stack.push(Layer::Add {
            parent: Some(to),
            shape: shape.clone(),
            plain: scene.is_none() && !raw,
            quiet,
            synced: false,
            nodes: vec![],
            expects_loaded: BTreeSet::new(),
            loaded: BTreeSet::new(),
            ready: BTreeSet::new(),
            last: None,
        });
        if raw {
            let new = make(shape.class, Some(&shape.name), shape.val, shape.note.unwrap());
            let rid = self.lib(&["P01", "P02", "P06", "P09"], "add_child_from_ptr", || unsafe { node.add_child_from_ptr(Box::into_raw(new), owner, quiet) });
            self.sync(false);
            let new = match self.stack.last() {
                Some(Layer::Add { nodes, .. }) => nodes[0],
                _ => unreachable!(),
            };
            if self.alive.get(&new).is_some_and(|m| m.rid != rid) {
                self.fail(&["P01"], format!("add_child_from_ptr gives the RID {rid}, but added {}", self.who(new)));
            }
            return self.finish_add();
        }
        self.lib(&["P01", "P02", "P06", "P09"], "add_child", || match scene {
            Some(s) => node.add_child(s),
            None => add_plain(node, shape.class, Some(&shape.name), shape.val, shape.note.unwrap()),
        });
        self.finish_add();
    }

    fn finish_add(&mut self) {
        self.sync(false);
        let Some(Layer::Add { nodes, expects_loaded, loaded, ready, quiet, .. }) = self.stack.pop() else { unreachable!() };
        for n in nodes {
            if quiet {
                break;
            }
            if !self.alive.contains_key(&n) {
                continue;
            }
            if !ready.contains(&n) {
                self.fail(&["P06"], format!("ready() of {} was not called", self.who(n)));
            }
            if expects_loaded.contains(&n) && !loaded.contains(&n) {
                self.fail(&["P06", "P10"], format!("loaded() of {} was not called", self.who(n)));
            }
        }
    }

    /// Brings the model up to date with a scene that is being added, by comparing what is in the
    /// tree with what was added.
    fn sync(&mut self, in_hook: bool) {
        let Some(Layer::Add { parent, shape, plain, synced: false, .. }) = self.stack.last() else { return };
        let (parent, shape, plain) = (*parent, shape.clone(), *plain);
        let tags: &[&str] = if in_hook { &["P06"] } else { &["P01"] };
        let rid = match parent {
            None => self.lib(tags, "root()", || self.base().root().rid()),
            Some(p) => {
                let kids: Vec<RID> = self.node(p).children().iter().map(|k| k.rid()).collect();
                let mut want: Vec<RID> = self.m(p).kids.iter().map(|k| self.m(*k).rid).collect();
                // A child that is being removed right now may be off the list already.
                if self.m(p).kids.iter().any(|k| self.m(*k).locked) {
                    want.retain(|r| kids.contains(r));
                }
                if kids.len() != want.len() + 1 || kids[..want.len()] != want[..] {
                    self.fail(tags, format!("the children of {} are {kids:?} while one was added to {want:?}", self.who(p)));
                }
                kids[want.len()]
            }
        };
        let mut list = vec![];
        let mut disk = BTreeSet::new();
        self.adopt(&shape, rid, parent, in_hook, plain, &mut list, &mut disk);
        if parent.is_none() {
            self.root = Some(list[0]);
        }
        if let Some(Layer::Add { synced, nodes, expects_loaded, .. }) = self.stack.last_mut() {
            *synced = true;
            *nodes = list;
            *expects_loaded = disk;
        }
    }

    fn adopt(&mut self, shape: &MScene, rid: RID, parent: Option<u64>, in_hook: bool, plain: bool, list: &mut Vec<u64>, disk: &mut BTreeSet<u64>) {
        let tags: Vec<&str> = match (in_hook, shape.origin) {
            (true, 0) => vec!["P06"],
            (false, 0) => vec!["P01"],
            (_, 1) => vec!["P10"],
            (_, 2) => vec!["P18"],
            _ => vec!["P10", "P18"],
        };
        let Some(node) = self.base().get_node(rid) else {
            self.fail(&["P01"], format!("an added node ({}) is not in the tree", shape.text()))
        };
        let Some(seen) = see(node) else { self.fail(&["P01"], "a node of a foreign type") };
        if seen.class != shape.class || seen.val != shape.val || seen.note != shape.note || seen.uniq != shape.uniq {
            self.fail(&tags, format!("the node that was added is {seen:?}, expected {}, val {}, note {:?}, uniq {:?}", shape.text(), shape.val, shape.note, shape.uniq));
        }
        let s = seen.serial;
        if self.alive.contains_key(&s) || self.dead.iter().any(|d| d.0 == s) {
            self.fail(&["P01", "P18"], format!("{} is added again instead of a new instance", self.who(s)));
        }
        if !self.used_rids.insert(rid) {
            self.fail(&["P03", "P01"], format!("RID {rid} was handed out again"));
        }
        let name = self.name_check(node, parent, None, &shape.name);
        let owner = match parent {
            None => s,
            Some(_) if shape.owner && !plain => s,
            Some(p) => self.m(p).owner,
        };
        let depth = parent.map(|p| self.m(p).depth + 1).unwrap_or(0);
        self.alive.insert(s, MNode {
            rid,
            class: shape.class,
            name,
            parent,
            owner,
            depth,
            kids: vec![],
            val: shape.val,
            note: shape.note,
            uniq: shape.uniq,
            status: MStat::Normal,
            ident: None,
            locked: false,
        });
        if let Some(p) = parent {
            self.alive.get_mut(&p).unwrap().kids.push(s);
        }
        list.push(s);
        if shape.from_disk {
            disk.insert(s);
            self.disk.insert(s);
        }
        let kids: Vec<RID> = node.children().iter().map(|k| k.rid()).collect();
        if kids.len() != shape.kids.len() {
            self.fail(&tags, format!(
                "{} of the added scene has {} children{}, expected {}", self.who(s), kids.len(),
                if in_hook { " when the first hook is called" } else { "" }, shape.text()));
        }
        for (k, rid) in shape.kids.iter().zip(kids) {
            self.adopt(k, rid, Some(s), in_hook, false, list, disk);
        }
    }

    /// The name a node has, which must be the one it asked for, or the closest free one. A sibling
    /// whose removal is under way may or may not still count.
    fn name_check(&self, node: &dyn Node, parent: Option<u64>, me: Option<u64>, asked: &str) -> String {
        let got = node.name().to_string();
        let names = |gone: bool| -> Vec<String> {
            let kids = parent.map(|p| self.m(p).kids.clone()).unwrap_or_default();
            kids.into_iter().filter(|k| Some(*k) != me && !(gone && self.m(*k).locked)).map(|k| self.m(k).name.clone()).collect()
        };
        let taken = names(false);
        if taken.iter().any(|t| t == asked) {
            self.c().label("taken name");
        }
        let want = unique_name(asked, &taken);
        if got != want && got != unique_name(asked, &names(true)) {
            self.soft(&["P02"], || format!("a node named {asked:?} among {taken:?} got the name {got:?}, expected {want:?}"));
        }
        got
    }

    pub fn rename(&mut self, s: u64, to: &str) {
        self.c().note(|| format!("{}.set_name({to:?})", self.who(s)));
        let node = self.node(s);
        self.lib(&["P02"], "set_name", || node.set_name(to));
        let name = self.name_check(self.node(s), self.m(s).parent, Some(s), to);
        self.alive.get_mut(&s).unwrap().name = name;
    }

    /// Removes a branch with `free` or `remove_child`.
    pub fn remove(&mut self, s: u64, how: TerminationReason, through: Option<TpDyn<'static>>) {
        self.c().label(if how == TerminationReason::Freed { "free" } else { "remove_child" });
        let branch = self.preorder(s);
        if branch.len() > 1 {
            self.c().label("removed branch");
        }
        if self.stack.iter().any(|l| matches!(l, Layer::Frame(_))) {
            self.c().label("removal during frame");
        } else if !self.stack.is_empty() {
            self.c().label("removal during add or removal");
        }
        for b in &branch {
            self.alive.get_mut(b).unwrap().locked = true;
        }
        self.removes += 1;
        self.stack.push(Layer::Remove { reason: how, branch: branch.clone(), seen: BTreeSet::new() });
        const TAGS: &[&str] = &["P09", "P01"];
        if how == TerminationReason::Freed {
            self.c().note(|| format!("{}.free()", self.who(s)));
            let node = self.node(s);
            self.lib(TAGS, "free", || match through {
                Some(mut tp) => tp.get_mut().free(),
                None => node.free(),
            });
        } else {
            let p = self.m(s).parent.unwrap();
            let name = self.m(s).name.clone();
            self.c().note(|| format!("{}.remove_child({name:?})", self.who(p)));
            let node = self.node(p);
            let r = self.lib(TAGS, "remove_child", || node.remove_child(&name));
            if !r {
                self.fail(TAGS, format!("remove_child({name:?}) returned false for a child"));
            }
        }
        let Some(Layer::Remove { seen, .. }) = self.stack.pop() else { unreachable!() };
        for b in &branch {
            if !seen.contains(b) {
                self.fail(&["P09"], format!("terminal({how:?}) of {} was not called", self.who(*b)));
            }
        }
        if let Some(p) = self.m(s).parent {
            self.alive.get_mut(&p).unwrap().kids.retain(|k| *k != s);
        }
        for b in &branch {
            let m = self.alive.remove(b).unwrap();
            self.singles.retain(|_, x| x != b);
            self.dead.push((*b, m.rid));
            match drops(*b) {
                1 => (),
                n => self.fail(&["P09"], format!("the removed node #{b}({:?}) was dropped {n} times", m.name)),
            }
            if self.base().get_node(m.rid).is_some() {
                self.fail(&["P09", "P03", "P01"], format!("the removed node #{b}({:?} rid {}) is still in the tree", m.name, m.rid));
            }
        }
        if self.root == Some(s) {
            self.root = None;
            self.set_status(TStat::Terminated);
        }
    }

    /// A node that is being removed is dropped, and the code that runs then looks at the others.
    fn on_drop(&mut self, serial: u64) {
        let Some(Layer::Remove { branch, .. }) = self.stack.last() else { return };
        if !matches!(self.pid, "P21" | "P09") || !branch.contains(&serial) || !self.c().chance(1, 6) {
            return;
        }
        let branch = branch.clone();
        self.c().label("drop looks at the tree");
        let base = self.base();
        let rids: Vec<(u64, RID)> = self.alive.iter().map(|(s, m)| (*s, m.rid)).collect();
        for (s, rid) in rids {
            let Some(node) = base.get_node(rid) else { continue };
            let ok = catches(|| {
                if !node.in_tree() {
                    return true;
                }
                let path = node.get_absolute_path();
                let up = node.is_root() || node.parent_dyn().to_result().is_ok();
                let down = node.children().iter().all(|k| k.depth() == node.depth() + 1);
                let owner = node.owner_dyn().rid();
                up && down && base.get_node(owner).is_some() && base.get_node_rid(path, None).is_some()
            });
            if ok != Ok(true) && !self.m(s).locked {
                self.fail(&["P09", "P21"], format!("while #{serial} is dropped, {} is not in a consistent tree: {ok:?}", self.who(s)));
            }
        }
    }

    /// Uses a node from within its destructor. It may refuse everything, but by panicking at most.
    fn on_destruct(&mut self, n: &mut dyn Node) {
        let c = self.c();
        if !c.chance(1, 4) {
            return;
        }
        c.label("destructor uses its node");
        for _ in 0..c.range(1, 3) {
            let what = c.below(12);
            let _ = catches_all(|| match what {
                0 => drop(n.children().iter().map(|k| k.name().len()).sum::<usize>()),
                1 => drop(n.get_absolute_path()),
                2 => drop(n.parent_dyn().to_result().map(|p| p.name().len())),
                3 => drop(n.owner_dyn().name().len()),
                4 => drop(n.tree().map(|t| t.root().name().len())),
                5 => drop(n.this_dyn().name().len()),
                6 => drop(n.top_down(true)),
                7 => drop(n.save_as_branch()),
                8 => n.post(Log::Info("bye")),
                9 => drop(n.get_child_dyn(0).to_result().map(|k| k.name().len())),
                10 => n.set_name("gone"),
                _ => drop((n.in_tree(), n.is_root(), n.is_owner(), n.depth(), n.num_children())),
            });
        }
    }

    /// Goes on using the tree after a hook panicked through it. What the tree then is like is left open,
    /// but it must be memory safe.
    pub fn after_panic(&mut self) {
        self.numb = true;
        self.acts = None;
        self.stack.clear();
        let c = self.c();
        let last = self.used_rids.iter().next_back().copied().unwrap_or(0) + 4;
        for _ in 0..c.range(1, 8) {
            let base = self.base();
            let rid = c.draw(last);
            let what = c.below(9);
            c.note(|| format!("after the panic: {what} on {rid}"));
            let _ = catches_all(|| match what {
                0 | 1 => drop(self.tree().process()),
                2 => {
                    if let Some(n) = base.get_node_mut(rid) {
                        n.free();
                    }
                }
                3 => {
                    if let Some(n) = base.get_node_mut(rid) {
                        n.add_child(N1::new());
                    }
                }
                4 => {
                    if let Some(n) = base.get_node_mut(rid) {
                        let name = n.children().first().map(|k| k.name().to_string()).unwrap_or_default();
                        n.remove_child(&name);
                    }
                }
                5 => {
                    if let Some(n) = base.get_node(rid) {
                        drop(n.save_as_branch());
                    }
                }
                6 => {
                    if let Some(n) = base.get_node_mut(rid) {
                        n.set_name("A");
                        n.register_as_singleton("S".to_string());
                    }
                }
                7 => drop(self.pool.pop()),
                _ => drop(node_tree::utils::functions::draw_tree(base, rid, 3, 3)),
            });
            self.look();
        }
    }

    /// Reads all there is.
    pub fn look(&mut self) {
        let base = self.base();
        let last = self.used_rids.iter().next_back().copied().unwrap_or(0).max(self.next_val as u64) + 4;
            for rid in 0..last {
                let _ = catches_all(|| {
                    let Some(n) = base.get_node(rid) else { return };
                    let _ = (see(n).map(|s| s.serial), n.name().len(), n.rid(), n.depth(), n.is_root(), n.in_tree());
                    let _ = (n.get_absolute_path(), n.top_down(true), n.parent_dyn(), n.owner_dyn());
                    for k in n.children() {
                        let _ = k.try_get().to_result().map(|k| see(k).map(|s| s.serial));
                    }
                });
            }
            for h in self.held.iter_mut().rev().take(20) {
                let _ = catches_all(|| match &mut h.ptr {
                    HeldPtr::Dyn(tp) => drop(tp.try_get().to_result().map(|n| see(n).map(|s| s.serial))),
                    HeldPtr::T0(tp) => drop(tp.try_get_mut().to_result().map(|n| *n.val)),
                    HeldPtr::T1(tp) => drop(tp.try_get_mut().to_result().map(|n| *n.val)),
                    HeldPtr::T2(tp) => drop(tp.try_get_mut().to_result().map(|n| *n.val)),
                    HeldPtr::T3(tp) => drop(tp.try_get_mut().to_result().map(|n| *n.val)),
                    HeldPtr::T4(tp) => drop(tp.try_get_mut().to_result().map(|n| *n.val)),
                });
            }
    }

    /// P26: every instance belongs to a node of the tree or of a scene that is kept.
    pub fn audit_drops(&self) {
        if self.pid != "P26" {
            return;
        }
        let held = self.alive.len() + self.pool.iter().map(|(_, m)| m.size()).sum::<usize>();
        let left = undropped(self.first);
        ensure!(left.len() == held, "{} node instances exist, though there are {} nodes in the tree and {} in scenes", left.len(), self.alive.len(), held - self.alive.len());
        for s in self.alive.keys() {
            ensure!(drops(*s) == 0, "#{s} was dropped, though it is in the tree");
        }
    }

    /// P26: drops the scenes and the tree.
    pub fn finish(&mut self) {
        if self.pid != "P26" {
            return;
        }
        CURRENT.with(|c| c.set(std::ptr::null_mut()));
        if self.c().flag() {
            self.pool.clear();
        }
        if let Some(t) = self.boxed.take() {
            self.c().note(|| "the tree is dropped".into());
            drop(unsafe { Box::from_raw(t) });
        }
        self.alive.clear();
        self.audit_drops();
        self.pool.clear();
        crate::p_drop::all_dropped(self.first);
    }

    pub fn wild_create(&mut self, s: NodeScene) {
        let t = Box::into_raw(node_tree::trees::TreeSimple::new(s, self.verbosity.clone())) as *mut dyn NodeTree;
        self.tree = Some(t);
        self.boxed = Some(t);
    }

    pub fn remove_missing(&mut self, p: u64, name: &str) {
        self.c().note(|| format!("{}.remove_child({name:?})", self.who(p)));
        self.c().label("remove_child of no child");
        let node = self.node(p);
        let r = self.lib(&["P09", "P01"], "remove_child", || node.remove_child(name));
        if r {
            self.fail(&["P09"], format!("remove_child({name:?}) returned true, though there is no such child"));
        }
        self.alive.get_mut(&p).unwrap().status = MStat::Unknown;
    }

    pub fn set_status(&mut self, to: TStat) {
        self.status = to;
        let term = to == TStat::Terminated;
        for l in &mut self.stack {
            if let Layer::Frame(f) = l {
                f.terminated |= term;
                if let TStat::Proc(p) | TStat::Queued(p) = to {
                    f.pauses.insert(p);
                }
            }
        }
    }

    /// Changes how a node is processed; during a frame this leaves open who is processed in it.
    pub fn set_mode(&mut self, s: u64, mode: ProcessMode) {
        if self.m(s).class == 2 {
            return;   // It has no such hook.
        }
        self.c().note(|| format!("{} mode {mode:?}", self.who(s)));
        self.modes.insert(s, mode);
        let below = self.preorder(s);
        for l in &mut self.stack {
            if let Layer::Frame(f) = l {
                f.unclear.extend(below.iter().copied());
            }
        }
    }

    fn mode(&self, s: u64) -> ProcessMode {
        match mode_of(s) {
            ProcessMode::Inherit => match self.m(s).parent {
                Some(p) => self.mode(p),
                None => ProcessMode::Pausable,
            },
            m => m,
        }
    }

    pub fn eligible(&self, s: u64, paused: bool) -> bool {
        match self.mode(s) {
            ProcessMode::Always => true,
            ProcessMode::Inverse => paused,
            _ => !paused,
        }
    }

    pub fn frame(&mut self) {
        self.c().note(|| format!("process() in {:?}", self.status));
        self.c().label("frame");
        let kind = match self.status {
            TStat::Terminated => FrameKind::Dead,
            TStat::Terminating => FrameKind::Exit,
            _ => FrameKind::Process,
        };
        let mut pauses = BTreeSet::new();
        if let TStat::Proc(p) | TStat::Queued(p) = self.status {
            pauses.insert(p);
            if p {
                self.c().label("paused frame");
            }
        }
        match kind {
            FrameKind::Dead => self.c().label("frame after termination"),
            FrameKind::Exit => self.c().label("exit frame"),
            _ => (),
        }
        if kind != FrameKind::Dead {
            for n in self.alive.values_mut() {
                n.status = MStat::Normal;
            }
        }
        let start = self.root.map(|r| self.preorder(r)).unwrap_or_default();
        self.stack.push(Layer::Frame(Frame {
            kind,
            start,
            done: BTreeMap::new(),
            delta: None,
            first: None,
            pauses,
            unclear: BTreeSet::new(),
            terminated: kind == FrameKind::Dead,
        }));
        let before = Instant::now();
        let got = self.lib(&["P07", "P08", "P09"], "process()", || self.base().process());
        let after = Instant::now();
        let Some(Layer::Frame(f)) = self.stack.pop() else { unreachable!() };
        let now = (before, f.first.unwrap_or(after));

        if !f.terminated {
            for s in &f.start {
                if !self.alive.contains_key(s) {
                    continue;
                }
                let done = f.done.contains_key(s);
                if kind == FrameKind::Exit {
                    if !done {
                        self.fail(&["P08"], format!("terminal(TreeExit) of {} was not called", self.who(*s)));
                    }
                    continue;
                }
                if f.unclear.contains(s) {
                    continue;
                }
                let e: BTreeSet<bool> = f.pauses.iter().map(|p| self.eligible(*s, *p)).collect();
                if e.len() == 1 && e.contains(&true) && !done {
                    let tags: &[&str] = if matches!(self.status, TStat::Queued(_)) { &["P07", "P08"] } else { &["P07"] };
                    self.fail(tags, format!("process() of {} was not called (mode {:?}, paused {:?})", self.who(*s), mode_of(*s), f.pauses));
                }
            }
        }
        if let Some(d) = f.delta {
            let secs = |a: Instant, b: Instant| if b > a { b.duration_since(a).as_secs_f64() } else { 0.0 };
            let (lo, hi) = (secs(self.prev_frame.1, now.0), secs(self.prev_frame.0, now.1));
            let d = d as f64;
            if d < lo - 1e-4 - lo * 1e-5 || d > hi + 1e-4 + hi * 1e-5 {
                self.fail(&["P07"], format!("a frame's delta is {d}, though the frame before it was {lo} to {hi} seconds ago"));
            }
        }
        if kind != FrameKind::Dead {
            self.prev_frame = now;
        }
        match self.status {
            TStat::Queued(_) => self.status = TStat::Terminating,
            TStat::Terminating => self.status = TStat::Terminated,
            _ => (),
        }
        let want = match self.status {
            TStat::Proc(p) => TreeStatus::Process(if p { TreeProcess::Paused } else { TreeProcess::Running }),
            TStat::Queued(p) => TreeStatus::QueuedTermination(if p { TreeProcess::Paused } else { TreeProcess::Running }),
            TStat::Terminating => TreeStatus::Terminating,
            TStat::Terminated => TreeStatus::Terminated,
        };
        if got != want {
            let paused = matches!((got, want), (TreeStatus::Process(_), TreeStatus::Process(_)));
            self.fail(if paused { &["P08", "P07"] } else { &["P08"] }, format!("process() returned {got:?}, expected {want:?}"));
        }
        if got.is_active() == (want == TreeStatus::Terminated) || got.has_terminated() != (want == TreeStatus::Terminated) {
            self.fail(&["P08"], format!("is_active() or has_terminated() of {got:?} is wrong"));
        }
    }

    pub fn on_hook(&mut self, kind: Hook, s: u64, delta: f32, just: bool) {
        if self.numb {
            return;
        }
        self.events += 1;
        if self.events > if self.big || self.huge { 30_000 } else { 3000 } {
            self.fail(&[], "too many hooks");
        }
        self.sync(true);
        self.c().note(|| format!("{}> {kind:?} {}", "  ".repeat(self.stack.len()), self.who(s)));
        let tag: &[&str] = match kind {
            Hook::Loaded | Hook::Ready => &["P06"],
            Hook::Process => &["P07", "P09"],
            Hook::Terminal(TerminationReason::TreeExit) => &["P08", "P09"],
            Hook::Terminal(_) => &["P09"],
        };
        if !self.alive.contains_key(&s) {
            let was = self.dead.iter().any(|d| d.0 == s);
            self.fail(tag, format!("{kind:?} is called on #{s}, which {} in the tree", if was { "is not anymore" } else { "was never" }));
        }
        // Whether it still is when it is made ready, or removed before that, is left open.
        let expect_just = match kind {
            Hook::Loaded => true,
            Hook::Process => false,
            _ => just && self.disk.contains(&s),
        };
        if just != expect_just {
            self.fail(&["P06"], format!("has_just_loaded() is {just} in {kind:?} of {}", self.who(s)));
        }
        match kind {
            Hook::Loaded | Hook::Ready => self.on_ready(kind, s),
            Hook::Process => self.on_process(s, delta),
            Hook::Terminal(TerminationReason::TreeExit) => self.on_exit(s),
            Hook::Terminal(reason) => self.on_terminal(s, reason),
        }
        if let Some(act) = self.acts {
            act(self, s);
        }
    }

    fn on_ready(&mut self, kind: Hook, s: u64) {
        let (p, known) = (self.who(s), self.preorder(s));
        let alive: BTreeSet<u64> = self.alive.keys().copied().collect();
        let err = match self.stack.last_mut() {
            Some(Layer::Add { quiet: true, .. }) => Some(format!("{kind:?} of {p} is called, though it was to be ignored")),
            Some(Layer::Add { nodes, expects_loaded, loaded, ready, last, .. }) if nodes.contains(&s) => {
                let before = *last;
                *last = Some((kind, s));
                let _ = &alive;
                if kind == Hook::Loaded {
                    if !expects_loaded.contains(&s) {
                        Some(format!("loaded() of {p} is called, though it was not loaded"))
                    } else if !loaded.insert(s) {
                        Some(format!("loaded() of {p} is called twice"))
                    } else if ready.contains(&s) {
                        Some(format!("loaded() of {p} is called after its ready()"))
                    } else {
                        None
                    }
                } else if !ready.insert(s) {
                    Some(format!("ready() of {p} is called twice"))
                } else if expects_loaded.contains(&s) && before != Some((Hook::Loaded, s)) {
                    Some(format!("ready() of {p} is not called right after its loaded()"))
                } else {
                    known.iter().find(|d| nodes.contains(d) && !ready.contains(d)).map(|d| format!("ready() of {p} is called before that of #{d}, which is below it"))
                }
            }
            _ => Some(format!("{kind:?} of {p} is called by an operation that does not add it")),
        };
        if let Some(e) = err {
            self.fail(&["P06"], e);
        }
    }

    fn on_process(&mut self, s: u64, delta: f32) {
        let who = self.who(s);
        match self.status {
            TStat::Terminating => self.fail(&["P08", "P07"], format!("process() of {who} is called in the frame that terminates the tree")),
            TStat::Terminated => self.fail(&["P08"], format!("process() of {who} is called after the tree was terminated")),
            _ => (),
        }
        let m = self.m(s).clone();
        let siblings = m.parent.map(|p| self.m(p).kids.clone()).unwrap_or_default();
        let Some(Layer::Frame(f)) = self.stack.last_mut() else {
            self.fail(&["P07"], format!("process() of {who} is called outside of a frame"));
        };
        if f.first.is_none() {
            f.first = Some(Instant::now());
        }
        if f.done.insert(s, m.parent).is_some() {
            self.fail(&["P07"], format!("process() of {who} is called twice in a frame"));
        }
        if let Some((k, _)) = f.done.iter().find(|(_, p)| **p == Some(s)) {
            let k = *k;
            self.fail(&["P07"], format!("process() of {who} is called after that of its child #{k}"));
        }
        let pos = siblings.iter().position(|x| *x == s).unwrap_or(0);
        if let Some(k) = siblings.iter().skip(pos + 1).find(|x| f.done.contains_key(x)).copied() {
            self.fail(&["P07"], format!("process() of {who} is called after that of its later sibling #{k}"));
        }
        if f.delta.get_or_insert(delta).to_bits() != delta.to_bits() {
            self.fail(&["P07"], format!("process() of {who} gets another delta ({delta}) than the nodes before it"));
        }
        let (pauses, marked) = (f.pauses.clone(), f.unclear.clone());
        let unclear = std::iter::successors(Some(s), |x| self.m(*x).parent).any(|x| marked.contains(&x));
        if !unclear && !pauses.iter().any(|p| self.eligible(s, *p)) {
            let tags: &[&str] = if matches!(self.status, TStat::Queued(_)) { &["P07", "P08"] } else { &["P07"] };
            self.fail(tags, format!("process() of {who} is called against its mode {:?} (paused: {pauses:?})", self.mode(s)));
        }
    }

    fn on_exit(&mut self, s: u64) {
        let who = self.who(s);
        let st = self.status;
        let Some(Layer::Frame(f)) = self.stack.last_mut() else {
            self.fail(&["P08"], format!("terminal(TreeExit) of {who} is called outside of a frame"));
        };
        if f.first.is_none() {
            f.first = Some(Instant::now());
        }
        let twice = f.done.insert(s, None).is_some();
        if st != TStat::Terminating {
            self.fail(&["P08"], format!("terminal(TreeExit) of {who} is called while the tree is {st:?}"));
        }
        if twice {
            self.fail(&["P08"], format!("terminal(TreeExit) of {who} is called twice"));
        }
    }

    fn on_terminal(&mut self, s: u64, why: TerminationReason) {
        let who = self.who(s);
        let branch = match self.stack.last_mut() {
            Some(Layer::Remove { reason, branch, seen }) => {
                if *reason != why {
                    self.fail(&["P09"], format!("terminal({why:?}) of {who} is called with the wrong reason"));
                }
                if !branch.contains(&s) {
                    self.fail(&["P09"], format!("terminal({why:?}) of {who} is called though it is not removed"));
                }
                if !seen.insert(s) {
                    self.fail(&["P09"], format!("terminal({why:?}) of {who} is called twice"));
                }
                branch.clone()
            }
            _ => self.fail(&["P09"], format!("terminal({why:?}) of {who} is called by an operation that removes nothing")),
        };
        for b in branch {
            let there = drops(b) == 0 && self.base().get_node(self.m(b).rid).is_some_and(|n| see(n).is_some_and(|x| x.serial == b));
            if !there {
                self.fail(&["P09"], format!("{} of the removed branch cannot be reached anymore in terminal() of {who}", self.who(b)));
            }
        }
    }

    // ---------------------------------------------------------------- comparing the tree with the model

    pub fn audit(&mut self) {
        if self.tree.is_none() {
            return;
        }
        // What a removal leaves behind in the other nodes is that removal's concern, too.
        let removal = self.removes > 0 && self.adds == 0;
        let base = self.base();
        let ids: Vec<u64> = self.alive.keys().copied().collect();
        for s in &ids {
            let s = *s;
            let m = self.m(s).clone();
            if drops(s) != 0 {
                self.fail(&["P09", "P01", "P21"], format!("{} was dropped while it is in the tree", self.who(s)));
            }
            let Some(node) = base.get_node(m.rid) else {
                self.fail(&["P01", "P09", "P03"], format!("{} is missing in the tree", self.who(s)));
            };
            let Some(seen) = see(node) else { self.fail(&["P01", "P03"], "a node of a foreign type") };
            if seen.serial != s {
                self.fail(&["P01", "P03"], format!("the RID of {} gives #{}", self.who(s), seen.serial));
            }
            if (seen.val, seen.note, seen.uniq) != (m.val, m.note, m.uniq) {
                self.fail(&["P18", "P09"], format!("the fields of {} changed from {:?} to {:?}", self.who(s), (m.val, m.note, m.uniq), (seen.val, seen.note, seen.uniq)));
            }
            if node.name() != m.name {
                let got = node.name().to_string();
                self.soft(if removal { &["P02", "P09"] } else { &["P02"] }, || format!("{} is now named {got:?}", self.who(s)));
                self.alive.get_mut(&s).unwrap().name = got;
            }
            let t: &[&str] = if removal { &["P01", "P09"] } else { &["P01"] };
            if node.rid() != m.rid {
                self.fail(t, format!("{} reports RID {}", self.who(s), node.rid()));
            }
            if !node.in_tree() || node.is_stray() {
                self.fail(t, format!("{} claims to be no part of a tree", self.who(s)));
            }
            let parent = self.lib(t, "parent_dyn", || node.parent_dyn().to_result().map(|p| p.rid()));
            match (parent, m.parent) {
                (Err(NodeError::NoParent), None) => (),
                (Ok(r), Some(p)) if self.m(p).rid == r => (),
                (r, _) => self.fail(t, format!("the parent of {} is {r:?}, expected {:?}", self.who(s), m.parent.map(|p| self.who(p)))),
            }
            if self.stack.is_empty() && node.has_just_loaded() {
                self.fail(&["P06"], format!("{} is still said to have just been loaded", self.who(s)));
            }
            if node.is_root() != m.parent.is_none() {
                self.fail(t, format!("is_root() of {} is {}", self.who(s), node.is_root()));
            }
            if node.depth() != m.depth {
                self.fail(t, format!("the depth of {} is {}, expected {}", self.who(s), node.depth(), m.depth));
            }
            let owner = self.m(m.owner).rid;
            let got = self.lib(t, "owner_dyn", || node.owner_dyn().rid());
            if got != owner {
                self.fail(t, format!("the owner of {} is {got}, expected {}", self.who(s), self.who(m.owner)));
            }
            if node.is_owner() != (m.owner == s) {
                self.fail(t, format!("is_owner() of {} is {}", self.who(s), node.is_owner()));
            }
            if !m.kids.iter().any(|k| self.m(*k).locked) {
                let want: Vec<RID> = m.kids.iter().map(|k| self.m(*k).rid).collect();
                let kids: Vec<RID> = self.lib(t, "children", || node.children().iter().map(|k| k.rid()).collect());
                if kids != want {
                    self.fail(&["P01", "P09"], format!("the children of {} are {kids:?}, expected {want:?}", self.who(s)));
                }
                if node.num_children() != want.len() || node.childless() != want.is_empty() {
                    self.fail(t, format!("num_children() or childless() of {} is wrong", self.who(s)));
                }
                for i in 0..=want.len() {
                    let got = self.lib(t, "get_child_dyn", || node.get_child_dyn(i).to_result().map(|k| k.rid()));
                    let ok = match &got {
                        Ok(r) => want.get(i) == Some(r),
                        Err(NodeError::IndexOutOfRange { index, children_count }) => i == want.len() && *index == i && *children_count == i,
                        Err(_) => false,
                    };
                    if !ok {
                        self.fail(t, format!("get_child_dyn({i}) of {} gives {got:?}", self.who(s)));
                    }
                }
            }
            self.status_check(s, node.status());
            let ident = base.get_node_identity(m.rid);
            let same = match (&ident, &m.ident) {
                (Some(NodeIdentity::NodePath), None) => true,
                (Some(NodeIdentity::UniqueName(a)), Some(b)) => a == b,
                _ => false,
            };
            let fits = match (&ident, &m.ident) {
                (Some(i), Some(b)) => {
                    !i.does_not_match(b) && [format!("{b} "), b.to_uppercase(), b.to_lowercase()].iter().all(|x| x == b || i.does_not_match(x))
                }
                (Some(i), None) => i.does_not_match(&m.name),
                _ => true,
            };
            if same && !fits {
                self.fail(&["P05"], format!("does_not_match() of the identity {ident:?} of {} is wrong", self.who(s)));
            }
            if !same {
                self.fail(&["P05", "P14"], format!("the identity of {} is {ident:?}, expected {:?}", self.who(s), m.ident));
            }
        }
        let old = self.dead.len().saturating_sub(20);
        for (s, rid) in &self.dead[old..] {
            if base.get_node(*rid).is_some() || base.get_node_mut(*rid).is_some() {
                self.fail(&["P09", "P03", "P01"], format!("the RID {rid} of the removed node #{s} gives a node"));
            }
            if drops(*s) != 1 {
                self.fail(&["P09", "P21"], format!("the removed node #{s} was dropped {} times", drops(*s)));
            }
            if base.get_node_identity(*rid).is_some() {
                self.fail(&["P05"], format!("the removed node #{s} still has an identity"));
            }
        }
        for (name, s) in &self.singles {
            let got = base.get_node_rid(name.as_str(), None);
            if got != Some(self.m(*s).rid) {
                self.fail(&["P05"], format!("the name {name:?} gives {got:?}, expected {}", self.who(*s)));
            }
        }
        if !self.any_locked() {
            if let Some(r) = self.root {
                if base.root().rid() != self.m(r).rid {
                    self.fail(if removal { &["P01", "P09"] } else { &["P01"] }, "root() gives another node");
                }
                for (s, selfish) in [(r, true), (*self.c().pick(&ids), self.c().flag())] {
                    self.check_top_down(s, selfish);
                }
            }
        }
        for i in 0..self.held.len() {
            self.check_held(i);
        }
    }

    pub fn check_top_down(&mut self, s: u64, selfish: bool) {
        let got = self.lib(&["P01"], "top_down", || self.node(s).top_down(selfish));
        let order: Vec<u64> = self.preorder(s).into_iter().filter(|x| selfish || *x != s).collect();
        let want: BTreeSet<RID> = order.iter().map(|x| self.m(*x).rid).collect();
        let pos: BTreeMap<RID, usize> = got.iter().enumerate().map(|(i, r)| (*r, i)).collect();
        if got.len() != want.len() || !got.iter().all(|r| want.contains(r)) || pos.len() != got.len() {
            self.fail(&["P01"], format!("top_down({selfish}) of {} gives {got:?}, expected {want:?} in some order", self.who(s)));
        }
        for x in &order {
            let m = self.m(*x);
            let at = |y: u64| pos.get(&self.m(y).rid).copied();
            let mut last = at(*x);
            for k in &m.kids {
                let i = at(*k);
                if i <= last {
                    self.fail(&["P01"], format!("top_down({selfish}) of {} gives {got:?}, where {} comes too early", self.who(s), self.who(*k)));
                }
                last = i;
            }
        }
    }

    fn status_check(&mut self, s: u64, got: NodeStatus) {
        let want = self.m(s).status.clone();
        let ok = match (&got, &want) {
            (_, MStat::Unknown) => true,
            (NodeStatus::Normal, MStat::Normal) => true,
            (NodeStatus::JustWarned(a), MStat::Warned(b)) => a == b,
            (NodeStatus::JustPanicked(a), MStat::Panicked(b)) => a == b,
            _ => false,
        };
        if !ok {
            self.soft(&["P14"], || format!("the status of {} is {got:?}, expected {want:?}", self.who(s)));
        }
        if !ok || want == MStat::Unknown {
            self.alive.get_mut(&s).unwrap().status = match got {
                NodeStatus::Normal => MStat::Normal,
                NodeStatus::JustWarned(m) => MStat::Warned(m),
                NodeStatus::JustPanicked(m) => MStat::Panicked(m),
            };
        }
    }

    /// A pointer gives the node it was made for, or fails.
    pub fn check_held(&mut self, i: usize) {
        let target = self.held[i].target;
        let class = self.alive.get(&target).map(|m| m.class);
        let tag: &[&str] = &["P03"];
        let err = match &mut self.held[i].ptr {
            HeldPtr::Dyn(tp) => check_dyn(tp, target, class),
            HeldPtr::T0(tp) => check_typed(tp, target, class.is_some()),
            HeldPtr::T1(tp) => check_typed(tp, target, class.is_some()),
            HeldPtr::T2(tp) => check_typed(tp, target, class.is_some()),
            HeldPtr::T3(tp) => check_typed(tp, target, class.is_some()),
            HeldPtr::T4(tp) => check_typed(tp, target, class.is_some()),
        };
        match err {
            Some(e) if e.starts_with("cast") => self.fail(&["P22"], format!("pointer to {}: {e}", self.who(target))),
            Some(e) => self.fail(tag, format!("pointer to {}: {e}", self.who(target))),
            None => (),
        }
    }
}

fn check_typed<T: Node + Clone>(tp: &mut Tp<'static, T>, target: u64, alive: bool) -> Option<String> {
    let serial = |n: &T| see(n.as_dyn()).map(|s| s.serial);
    if tp.is_valid() != alive || tp.is_null() == alive {
        return Some(format!("is_valid() or is_null() is wrong, the node is {}", if alive { "there" } else { "gone" }));
    }
    let a = tp.try_get().to_result().map(|n| serial(n));
    let b = tp.try_get_mut().to_result().map(|n| serial(n));
    let c = tp.clone().try_to_dyn().to_result().map(|d| d.try_get().to_result().map(|n| see(n).map(|s| s.serial)));
    if alive {
        if a != Ok(Some(target)) || b != Ok(Some(target)) || c != Ok(Ok(Some(target))) {
            return Some(format!("try_get, try_get_mut and try_to_dyn give {a:?}, {b:?}, {c:?}"));
        }
        match catches(|| (serial(tp.get()), serial(tp.get_mut()), see(tp.clone().to_dyn().get()).map(|s| s.serial), serial(&**tp))) {
            Ok(x) if x == (Some(target), Some(target), Some(target), Some(target)) => None,
            x => Some(format!("get, get_mut, to_dyn and deref give {x:?}")),
        }
    } else if a != Err(TPError::IsNull) || b != Err(TPError::IsNull) || c != Err(TPError::IsNull) {
        Some(format!("the node is gone, but try_get, try_get_mut and try_to_dyn give {a:?}, {b:?}, {c:?}"))
    } else {
        None
    }
}

fn check_dyn(tp: &mut TpDyn<'static>, target: u64, class: Option<u8>) -> Option<String> {
    let alive = class.is_some();
    if tp.is_valid() != alive || tp.is_null() == alive {
        return Some(format!("is_valid() or is_null() is wrong, the node is {}", if alive { "there" } else { "gone" }));
    }
    let serial = |n: &dyn Node| see(n).map(|s| s.serial);
    let a = tp.try_get().to_result().map(serial);
    let b = tp.try_get_mut().to_result().map(|n| serial(n));
    if alive {
        if a != Ok(Some(target)) || b != Ok(Some(target)) {
            return Some(format!("try_get and try_get_mut give {a:?}, {b:?}"));
        }
        match catches(|| (serial(tp.get()), serial(tp.get_mut()), see(tp.as_dyn()).map(|s| s.serial))) {
            Ok(x) if x == (Some(target), Some(target), Some(target)) => (),
            x => return Some(format!("get, get_mut and deref give {x:?}")),
        }
    } else if a != Err(TPError::IsNull) || b != Err(TPError::IsNull) {
        return Some(format!("the node is gone, but try_get and try_get_mut give {a:?}, {b:?}"));
    }
    for k in 0..CLASSES {
        let (is, to) = with_class!(k, T => (tp.is::<T>(), tp.to::<T>().to_result().map(|t| t.try_get().to_result().map(|n| n.tok.0))));
        let want = match class {
            None => Err(TPError::IsNull),
            Some(c) if c == k => Ok(Ok(target)),
            Some(_) => Err(TPError::WrongType),
        };
        if is != (class == Some(k)) || to != want {
            return Some(format!("is and to of class {} give {is} and {to:?}, expected {want:?}", CLASS_NAMES[k as usize]));
        }
    }
    macro_rules! casts {
        ($t:ident, $get:ident, $ext:ident) => {{
            let has = class.map($ext);
            let of = tp.is_of::<dyn Alpha>();
            let _ = of;
            let of = tp.is_of::<dyn $t>();
            let a = tp.cast::<dyn $t>().to_result().map(|x| x.$get());
            let b = tp.cast_mut::<dyn $t>().to_result().map(|x| x.$get());
            let want = match has {
                None => Err(TPError::AttemptedDynCastOnNull),
                Some(false) => Err(TPError::DynCastFailed),
                Some(true) => Ok((target, class.unwrap())),
            };
            if of != (has == Some(true)) || a != want || b != want {
                return Some(format!("cast to {}: is_of, cast and cast_mut give {of}, {a:?}, {b:?}, expected {want:?}", stringify!($t)));
            }
        }};
    }
    casts!(Alpha, alpha, extends_alpha);
    casts!(Beta, beta, extends_beta);
    casts!(Gamma, gamma, extends_gamma);
    None
}

impl World {
    pub fn new(c: &mut Ctx) -> Box<World> {
        let pid = c.pid;
        let verbosity = match c.weighted(&[2, 1, 1, 1]) {
            0 => LoggerVerbosity::All,
            1 => LoggerVerbosity::NoDebug,
            2 => LoggerVerbosity::OnlyIssues,
            _ => LoggerVerbosity::OnlyPanics,
        };
        let now = Instant::now();
        Box::new(World {
            c,
            tree: None,
            boxed: None,
            verbosity,
            alive: BTreeMap::new(),
            dead: vec![],
            used_rids: BTreeSet::new(),
            disk: BTreeSet::new(),
            root: None,
            status: TStat::Proc(false),
            singles: BTreeMap::new(),
            modes: BTreeMap::new(),
            stack: vec![],
            held: vec![],
            pool: vec![],
            entries: vec![],
            log_pos: 0,
            printed: if c.pid == "P14" { Some(Printed::start()) } else { None },
            print_pos: 0,
            header: None,
            footer: None,
            events: 0,
            adds: 0,
            removes: 0,
            budget: 40,
            big: false,
            huge: false,
            swarm: vec![],
            last_msg: None,
            numb: false,
            wild: false,
            depth: 0,
            next_val: 1,
            first: next_serial(),
            prev_frame: (now, now),
            acts: None,
            pid,
        })
    }
}
