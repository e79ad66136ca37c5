//! P13: signals against a model of their connections. Handlers use the signals themselves.

use crate::engine::*;
use crate::ensure;
use node_tree::prelude::*;
use std::cell::Cell;
use std::collections::{BTreeMap, BTreeSet};

class! {
    pub declare Em;

    pub signal a(v: i64);
    pub signal b();
    pub signal c(x: u64, y: bool);

    pub let tag: u64 = 0;

    pub fn on_a(&self, v: &i64) {
        fire_linked(*self.tag, 0, enc_a(*v));
    }
    pub fn on_b(&self, _v: &()) {
        fire_linked(*self.tag, 1, 0);
    }
    pub fn on_c(&self, v: &(u64, bool)) {
        fire_linked(*self.tag, 2, enc_c(*v));
    }
    pub fn link(&self, to: Tp<'static, Em>, kind: u8, once: bool) -> RID {
        match (kind, once) {
            (0, false) => connect! { a -> to.on_a },
            (0, true) => connect! { a ~> to.on_a },
            (1, false) => connect! { b -> to.on_b },
            (1, true) => connect! { b ~> to.on_b },
            (2, false) => connect! { c -> to.on_c },
            _ => connect! { c ~> to.on_c },
        }
    }
}

fn enc_a(v: i64) -> i128 {
    v as i128
}
fn enc_c(v: (u64, bool)) -> i128 {
    v.0 as i128 * 2 + v.1 as i128
}

#[derive(Clone, Copy)]
enum Sig {
    A(*const Signal<i64>),
    B(*const Signal<()>),
    C(*const Signal<(u64, bool)>),
}

struct Conn {
    rid: RID,
    once: bool,
}

/// A signal and the connections it must have.
struct Src {
    sig: Sig,
    /// The node that holds it, if it can be freed.
    node: Option<usize>,
    alive: bool,
    conns: BTreeMap<u64, Conn>,
    ever: BTreeMap<RID, u64>,
}

struct Emission {
    src: usize,
    snapshot: BTreeSet<u64>,
    called: BTreeSet<u64>,
    value: i128,
}

struct W {
    c: *mut Ctx,
    tree: *mut node_tree::trees::TreeSimple,
    srcs: Vec<Src>,
    nodes: Vec<Option<TpDyn<'static>>>,
    listeners: Vec<Tp<'static, Em>>,
    stack: Vec<Emission>,
    /// The connections whose handlers run right now.
    running: Vec<u64>,
    keep: Vec<Box<Em>>,
    keep_signals: Vec<Box<Signal<i64>>>,
    next: u64,
    budget: u32,
    hot: usize,
    big: bool,
    /// The connections made with `connect!`: listener, signal -> key.
    linked: BTreeMap<(u64, usize), u64>,
}

thread_local! {
    /// The handlers that are not destroyed yet.
    static LIVE: std::cell::RefCell<BTreeSet<u64>> = const { std::cell::RefCell::new(BTreeSet::new()) };
    static CUR: Cell<*mut W> = const { Cell::new(std::ptr::null_mut()) };
}
impl Drop for W {
    fn drop(&mut self) {
        CUR.with(|c| c.set(std::ptr::null_mut()));
    }
}

/// What a handler holds: it must be there as long as the handler runs.
struct Guard(Box<u64>);

impl Guard {
    fn check(&self, key: u64) {
        ensure!(*self.0 == key, "handler {key} lost what it holds while it ran");
    }
}

impl Drop for Guard {
    fn drop(&mut self) {
        LIVE.with(|l| l.borrow_mut().remove(&*self.0));
        if CUR.with(|c| c.get()).is_null() || std::thread::panicking() {
            return;
        }
        if unsafe { &*w().c }.pid == "P21" {
            return; // The sanitizer sees what comes of it.
        }
        ensure!(!w().running.contains(&*self.0), "handler {} is destroyed while it runs", self.0);
    }
}

fn w() -> &'static mut W {
    unsafe { &mut *CUR.with(|c| c.get()) }
}

fn fire_linked(tag: u64, kind: u8, value: i128) {
    let w = w();
    let Some(e) = w.stack.last() else { violate("a handler is called, though no signal is emitted") };
    let Some(src) = w.srcs.get(e.src) else { violate("a signal without connections called a handler") };
    ensure!(src.sig.kind() == kind, "the handler of another signal is called");
    match w.linked.get(&(tag, e.src)) {
        Some(k) => fire(e.src, *k, value),
        None => violate(format!("listener {tag} is called by signal {}, to which it is not connected", e.src)),
    }
}

impl Sig {
    fn kind(&self) -> u8 {
        match self {
            Sig::A(_) => 0,
            Sig::B(_) => 1,
            Sig::C(_) => 2,
        }
    }
}

fn fire(src: usize, key: u64, value: i128) {
    let w = w();
    let c = unsafe { &mut *w.c };
    c.steps += 1;
    c.note(|| format!("{}handler {key} of signal {src} gets {value}", "  ".repeat(w.stack.len())));
    let Some(e) = w.stack.last_mut() else { violate(format!("handler {key} is called, though no signal is emitted")) };
    ensure!(e.src == src, "handler {key} of signal {src} is called while signal {} is emitted", e.src);
    ensure!(e.value == value, "handler {key} gets {value}, but {} was emitted", e.value);
    ensure!(e.snapshot.contains(&key), "handler {key} is called, which was not connected when the emission started");
    ensure!(e.called.insert(key), "handler {key} is called twice by one emission");
    let s = &mut w.srcs[src];
    match s.conns.get(&key) {
        None => violate(format!("handler {key} is called, though it is disconnected or was called once already")),
        Some(x) if x.once => {
            s.conns.remove(&key);
        }
        _ => (),
    }
    w.running.push(key);
    while w.stack.len() < 4 && w.budget > 0 && c.chance(1, 3) {
        w.budget -= 1;
        c.label("handler acts");
        c.nontrivial = true;
        op(true);
    }
    w.running.pop();
    if c.chance(1, 40) {
        c.label("handler panics");
        c.note(|| format!("{}handler {key} panics", "  ".repeat(w.stack.len())));
        std::panic::panic_any(Boom);
    }
}

fn add_node_srcs(w: &mut W, em: *const Em, node: Option<usize>) {
    let em = unsafe { &*em };
    for sig in [Sig::A(&em.a), Sig::B(&em.b), Sig::C(&em.c)] {
        w.srcs.push(Src { sig, node, alive: true, conns: BTreeMap::new(), ever: BTreeMap::new() });
    }
}

fn emit(w: &mut W, c: &mut Ctx, i: usize, sig: Sig) {
    let snapshot: BTreeSet<u64> = w.srcs.get(i).map(|s| s.conns.keys().copied().collect()).unwrap_or_default();
    if snapshot.len() > 1 {
        c.label("emit to several");
    }
    let n = w.stack.len();
    let how = c.below(5);
    let raw = c.bits();
    let (va, vc) = (raw as i64, (raw >> 1, raw & 1 == 1));
    let value = match sig {
        Sig::A(_) => enc_a(va),
        Sig::B(_) => 0,
        Sig::C(_) => enc_c(vc),
    };
    c.note(|| format!("{}emit {value} on signal {i} ({} connections)", "  ".repeat(n), snapshot.len()));
    w.stack.push(Emission { src: i, snapshot, called: BTreeSet::new(), value });
    let running = w.running.len();
    let mut r = Ok(());
    let boom = catches_boom(|| r = catches(|| unsafe {
        match sig {
            Sig::A(s) => match how {
                0 => (*s).emit(va),
                1 => (*s).emit(Field::Valid(va)),
                2 => (*s).emit(UniqueField::Valid(va)),
                3 => (*s).emit(ExportableField::new(va)),
                _ => (*s).emit(DefaultField::new(va)),
            },
            Sig::B(s) => (*s).emit(()),
            Sig::C(s) => match how {
                0 | 1 => (*s).emit(vc),
                2 => (*s).emit(UniqueField::Valid(vc)),
                3 => (*s).emit(Field::Valid(vc)),
                _ => (*s).emit(DefaultField::new(vc)),
            },
        }
    }));
    if let Err(m) = r {
        violate(format!("emit panicked: {m}"));
    }
    ensure!(w.stack.len() == n + 1, "internal: unbalanced emissions");
    let e = w.stack.pop().unwrap();
    if boom {
        // The emission ended there, whether or not whoever emitted catches it; nothing else has changed.
        w.running.truncate(running);
        if n > 0 && c.flag() {
            std::panic::panic_any(Boom);
        }
        return;
    }
    if let Some(s) = w.srcs.get(i) {
        for k in &e.snapshot {
            if !e.called.contains(k) && s.conns.contains_key(k) {
                violate(format!("handler {k} of signal {i} was connected all along, but not called"));
            }
        }
    }
    c.note(|| format!("{}emitted to {}", "  ".repeat(n), e.called.len()));
}


fn op(inner: bool) {
    let w = w();
    let c = unsafe { &mut *w.c };
    let live: Vec<usize> = (0..w.srcs.len()).filter(|i| w.srcs[*i].alive).collect();
    if live.is_empty() {
        return;
    }
    let pad = "  ".repeat(w.stack.len());
    // Handlers mostly use the signal that called them.
    let i = match w.stack.last() {
        Some(e) if inner && c.chance(2, 3) && live.contains(&e.src) => e.src,
        // A few signals get most of the operations.
        _ if w.big && !c.chance(1, 20) => live[w.hot % live.len()],
        _ if c.chance(3, 4) => live[w.hot % live.len()],
        _ => *c.pick(&live),
    };
    if !w.big && c.chance(1, 12) {
        w.hot = c.below(12);
    }
    let sig = w.srcs[i].sig;
    c.step();
    match c.weighted(&if w.big { [12, 3, 3, 1, 0, 0, 1] } else { [6, 6, 4, 2, 1, if inner { 2 } else { 1 }, 1] }) {
        0 => {
            let once = c.chance(1, 3);
            let key = w.next;
            w.next += 1;
            let guard = Guard(Box::new(key));
            LIVE.with(|l| l.borrow_mut().insert(key));
            let rid = unsafe {
                match (sig, once) {
                    (Sig::A(s), false) => (*s).connect(move |v| { fire(i, key, enc_a(*v)); guard.check(key) }),
                    (Sig::A(s), true) => (*s).connect_once(move |v| { fire(i, key, enc_a(*v)); guard.check(key) }),
                    (Sig::B(s), false) => (*s).connect(move |_| { fire(i, key, 0); guard.check(key) }),
                    (Sig::B(s), true) => (*s).connect_once(move |_| { fire(i, key, 0); guard.check(key) }),
                    (Sig::C(s), false) => (*s).connect(move |v| { fire(i, key, enc_c(*v)); guard.check(key) }),
                    (Sig::C(s), true) => (*s).connect_once(move |v| { fire(i, key, enc_c(*v)); guard.check(key) }),
                }
            };
            c.note(|| format!("{pad}connect{} handler {key} to signal {i}: id {rid}", if once { "_once" } else { "" }));
            c.label(if once { "connect_once" } else { "connect" });
            let s = &mut w.srcs[i];
            ensure!(s.ever.insert(rid, key).is_none(), "connection id {rid} of signal {i} is given out again");
            s.conns.insert(key, Conn { rid, once });
        }
        1 => {
            c.label("emit");
            emit(w, c, i, sig);
        }
        2 => {
            let s = &mut w.srcs[i];
            let conns: Vec<(u64, RID)> = s.conns.iter().map(|(k, x)| (*k, x.rid)).collect();
            let (key, rid) = match c.below(4) {
                0 | 1 if !conns.is_empty() => {
                    let (k, r) = *c.pick(&conns);
                    (Some(k), r)
                }
                2 if !s.ever.is_empty() => {
                    let all: Vec<RID> = s.ever.keys().copied().collect();
                    let r = *c.pick(&all);
                    (conns.iter().find(|x| x.1 == r).map(|x| x.0), r)
                }
                _ => {
                    let r = 1000 + c.draw(100);
                    (None, r)
                }
            };
            let got = unsafe {
                match sig {
                    Sig::A(s) => (*s).disconnect(rid),
                    Sig::B(s) => (*s).disconnect(rid),
                    Sig::C(s) => (*s).disconnect(rid),
                }
            };
            c.note(|| format!("{pad}disconnect {rid} ({key:?}) of signal {i}: {got}"));
            c.label(if key.is_some() { "disconnect" } else { "disconnect of nothing" });
            if let Some(k) = key {
                s.conns.remove(&k);
            }
            // Whether a one-time connection still exists while its handler runs is not stated.
            let own = key.is_none() && s.ever.get(&rid).is_some_and(|k| w.running.contains(k));
            ensure!(got == key.is_some() || own, "disconnect({rid}) of signal {i} gives {got}");
        }
        3 => {
            // `connect!` in a method of the node that holds the signal.
            let Some(n) = w.srcs[i].node else { return };
            let tag = c.below(w.listeners.len()) as u64;
            if w.linked.contains_key(&(tag, i)) {
                return;
            }
            let once = c.chance(1, 3);
            let to = w.listeners[tag as usize].clone();
            let key = w.next;
            w.next += 1;
            w.linked.insert((tag, i), key);
            c.note(|| format!("{pad}connect!{} handler {key} (listener {tag}) to signal {i}", if once { " once" } else { "" }));
            c.label("connect!");
            let holder = w.nodes[n].as_ref().unwrap().to::<Em>().unwrap();
            let rid = holder.link(to, sig.kind(), once);
            let s = &mut w.srcs[i];
            ensure!(s.ever.insert(rid, key).is_none(), "connect! gives the connection id {rid} of signal {i} again");
            s.conns.insert(key, Conn { rid, once });
        }
        4 => {
            // A copy has no connections, and is another signal.
            match c.below(4) {
                0 => {
                    if let Sig::A(s) = sig {
                        let copy = Box::new(unsafe { (*s).clone() });
                        c.note(|| format!("{pad}clone of signal {i}"));
                        emit(w, c, usize::MAX, Sig::A(&*copy));
                        w.srcs.push(Src { sig: Sig::A(&*copy), node: None, alive: true, conns: BTreeMap::new(), ever: BTreeMap::new() });
                        w.keep_signals.push(copy);
                    }
                }
                1 => {
                    let Some(n) = w.srcs[i].node else { return };
                    c.note(|| format!("{pad}clone of node {n}"));
                    let copy = Box::new((*w.nodes[n].as_ref().unwrap().to::<Em>().unwrap()).clone());
                    emit(w, c, usize::MAX, Sig::A(&copy.a));
                    emit(w, c, usize::MAX, Sig::B(&copy.b));
                    emit(w, c, usize::MAX, Sig::C(&copy.c));
                    add_node_srcs(w, &*copy, None);
                    w.keep.push(copy);
                }
                2 => {
                    let Some(n) = w.srcs[i].node else { return };
                    c.note(|| format!("{pad}branch of node {n}, added"));
                    let scene = w.nodes[n].as_ref().unwrap().save_as_branch();
                    let root = unsafe { &mut *w.tree }.base_mut().get_node_mut(0).unwrap();
                    root.add_child(scene);
                    new_child(w, c);
                }
                _ => {
                    c.note(|| format!("{pad}new node"));
                    let root = unsafe { &mut *w.tree }.base_mut().get_node_mut(0).unwrap();
                    root.add_child(Em::new());
                    new_child(w, c);
                }
            }
            c.label("copy");
        }
        5 => {
            let Some(n) = w.srcs[i].node else { return };
            c.note(|| format!("{pad}free node {n}"));
            c.label(if inner { "free the holder in a handler" } else { "free" });
            for s in w.srcs.iter_mut().filter(|s| s.node == Some(n)) {
                s.alive = false;
            }
            let mut tp = w.nodes[n].take().unwrap();
            tp.free();
        }
        _ => {
            let root = unsafe { &mut *w.tree }.process();
            let _ = root;
        }
    }
}

/// Takes the node that was just added to the root.
fn new_child(w: &mut W, c: &mut Ctx) {
    let root = unsafe { &mut *w.tree }.base_mut().get_node_mut(0).unwrap();
    let tp = *root.children().last().unwrap();
    let em = tp.to::<Em>().unwrap();
    let p: *const Em = &*em;
    unsafe {
        emit(w, c, usize::MAX, Sig::A(&(*p).a));
        emit(w, c, usize::MAX, Sig::B(&(*p).b));
        emit(w, c, usize::MAX, Sig::C(&(*p).c));
    }
    w.nodes.push(Some(tp));
    add_node_srcs(w, p, Some(w.nodes.len() - 1));
}

pub fn check(c: &mut Ctx) {
    let mut scene = NodeScene::new(Em::new());
    let n = c.range(1, 3);
    let l = c.range(1, 3);
    for i in 0..l {
        let mut em = Em::new();
        *em.tag = i as u64;
        scene.append(NodeScene::new(em));
    }
    for _ in 0..n {
        scene.append(NodeScene::new(Em::new()));
    }
    let tree = Box::into_raw(node_tree::trees::TreeSimple::new(scene, LoggerVerbosity::OnlyPanics));
    let mut world = W {
        c,
        tree,
        srcs: vec![],
        nodes: vec![],
        listeners: vec![],
        stack: vec![],
        running: vec![],
        keep: vec![],
        keep_signals: vec![],
        next: 0,
        budget: if c.thorough { 60 } else { 25 },
        linked: BTreeMap::new(),
        hot: c.below(12),
        big: false,
    };
    CUR.with(|x| x.set(&mut world));
    let root = unsafe { &mut *world.tree }.base_mut().get_node_mut(0).unwrap();
    for (i, k) in root.children().into_iter().enumerate() {
        let em = k.to::<Em>().unwrap();
        if i < l {
            world.listeners.push(em);
        } else {
            let p: *const Em = &*em;
            world.nodes.push(Some(k));
            let n = world.nodes.len() - 1;
            add_node_srcs(&mut world, p, Some(n));
        }
    }
    if c.flag() {
        let s = Box::new(Signal::<i64>::default());
        world.srcs.push(Src { sig: Sig::A(&*s), node: None, alive: true, conns: BTreeMap::new(), ever: BTreeMap::new() });
        world.keep_signals.push(s);
    }
    let mut steps = c.range(1, if c.thorough { 60 } else { 25 });
    if c.chance(1, 300) {
        c.label("large history");
        world.big = true;
        world.budget = 150;
        steps = c.range(100, 300);
    }
    LIVE.with(|l| l.borrow_mut().clear());
    for _ in 0..steps {
        op(false);
        if c.pid == "P26" {
            // Those made with `connect!` hold nothing to tell.
            let linked: BTreeSet<u64> = world.linked.values().copied().collect();
            let want: BTreeSet<u64> = world.srcs.iter().filter(|s| s.alive).flat_map(|s| s.conns.keys().copied()).filter(|k| !linked.contains(k)).collect();
            LIVE.with(|l| ensure!(*l.borrow() == want, "the handlers {:?} exist, but {want:?} are connected", l.borrow()));
        }
    }
    // Every signal still works.
    for i in 0..world.srcs.len() {
        if world.srcs[i].alive {
            let sig = world.srcs[i].sig;
            world.budget = 0;
            let wp: *mut W = &mut world;
            emit(unsafe { &mut *wp }, c, i, sig);
        }
    }
    if c.pid == "P26" {
        CUR.with(|x| x.set(std::ptr::null_mut()));
        drop(unsafe { Box::from_raw(world.tree) });
        world.keep.clear();
        world.keep_signals.clear();
        LIVE.with(|l| ensure!(l.borrow().is_empty(), "the handlers {:?} still exist after everything is dropped", l.borrow()));
    }
}
