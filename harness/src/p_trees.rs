//! P28: trees that exist at the same time are independent, and the same operations give the same
//! results. A program for each of two or three trees is run on its own first, and then interleaved with
//! those of the others, also from inside their hooks; what each tree shows must be the same.

use crate::engine::*;
use crate::ensure;
use node_tree::prelude::*;
use std::cell::RefCell;
use std::collections::HashSet;
use std::hash::{BuildHasher, RandomState};
use std::time::Instant;

#[derive(Clone, Copy)]
struct Op {
    kind: u8,
    a: u8,
    b: u8,
}

const KINDS: [&str; 23] = [
    "add", "add scene", "free", "remove", "rename", "frame", "pause", "post", "singleton", "by name", "path", "branch", "add branch",
    "reload branch", "queue", "hold", "use", "draw", "connect", "emit", "header", "footer", "look",
];

impl std::fmt::Debug for Op {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{}({}, {})", KINDS[self.kind as usize], self.a, self.b)
    }
}

#[derive(Clone, Debug)]
struct Program {
    verbosity: LoggerVerbosity,
    shape: u8,
    own: bool,
    ops: Vec<Op>,
    /// What the hooks do, in the order they are called.
    hooks: Vec<Option<Op>>,
}

/// A tree that is running its program.
struct Env {
    id: usize,
    program: Program,
    tree: Option<*mut dyn NodeTree>,
    at: usize,
    hook_at: usize,
    depth: u8,
    busy: bool,
    seen: Vec<RID>,
    scenes: Vec<NodeScene>,
    held: Vec<(RID, RID, TpDyn<'static>)>,
    connected: HashSet<RID>,
    trace: Vec<String>,
    /// When its last frame began and ended, or its creation.
    last: (Instant, Instant),
    /// When its current frame began.
    began: Instant,
}

struct Run {
    envs: Vec<Env>,
    /// When another tree has its turn during a hook; empty if each runs alone.
    turns: Vec<u8>,
    turn: usize,
    inside: u32,
}

thread_local! {
    static RUN: RefCell<Option<*mut Run>> = const { RefCell::new(None) };
}
fn run_now() -> Option<&'static mut Run> {
    RUN.with(|r| *r.borrow()).map(|r| unsafe { &mut *r })
}

macro_rules! classes {
    ($($n:ident),*) => {$(
        class! {
            pub declare $n;
            pub signal sig(v: i64);
            pub export let val: i64 = 3;
            hk loaded(&mut self) { hook(self, "loaded") }
            hk ready(&mut self) { hook(self, "ready") }
            hk process(&mut self, delta: f32) { frame_time(self, delta); hook(self, "process") }
            hk terminal(&mut self, reason: TerminationReason) { hook(self, &format!("{reason:?}")) }
            hk process_mode(&self) -> ProcessMode {
                match *self.val % 5 {
                    1 => ProcessMode::Always,
                    2 => ProcessMode::Inverse,
                    4 => ProcessMode::Pausable,
                    _ => ProcessMode::Inherit,
                }
            }
            fn got(&self, v: &i64) { hook(self, &format!("got {v}")) }
        }
    )*};
}
classes!(W0, W1);

#[derive(Debug, Tree)]
struct Own {
    base: Option<NodeTreeBase>,
}

/// The time since the last frame of this tree, whatever others did.
fn frame_time(node: &NodeBase, delta: f32) {
    let now = Instant::now();
    let (Some(run), Some(tree)) = (run_now(), node.tree()) else { return };
    let tree = tree as *const dyn NodeTree as *const ();
    let Some(env) = run.envs.iter().find(|e| e.tree.is_some_and(|t| t as *const () == tree)) else { return };
    let least = env.began.saturating_duration_since(env.last.1).as_secs_f64() * (1.0 - 1e-6) - 1e-7;
    let most = now.duration_since(env.last.0).as_secs_f64() * (1.0 + 1e-6) + 1e-7;
    ensure!((least..=most).contains(&(delta as f64)), "a frame of tree {} has a delta of {delta} s, but {least} to {most} s have passed", env.id);
}

/// Every hook of every tree comes through here.
fn hook(node: &NodeBase, what: &str) {
    let (Some(run), Some(tree)) = (run_now(), node.tree()) else { return };
    let tree = tree as *const dyn NodeTree as *const ();
    // The tree which is being created is the one that isn't known yet.
    let Some(i) = run.envs.iter().position(|e| e.tree.is_some_and(|t| t as *const () == tree)).or_else(|| run.envs.iter().position(|e| e.busy && e.tree.is_none())) else {
        violate("a hook runs for a tree that does not exist");
    };
    let env = &mut run.envs[i];
    if env.tree.is_none() {
        env.tree = Some(node.tree().unwrap().as_dyn_raw() as *mut dyn NodeTree);
    }
    env.trace.push(format!("{what} {} {} in {}", node.name(), node.rid(), node.get_absolute_path().to_string()));
    if !env.seen.contains(&node.rid()) {
        env.seen.push(node.rid());
    }
    others();
    let run = run_now().unwrap();
    let env = &mut run.envs[i];
    let op = env.program.hooks.get(env.hook_at).copied().flatten();
    env.hook_at += 1;
    if let Some(op) = op.filter(|_| env.depth < 2) {
        env.depth += 1;
        env.trace.push(format!("  {op:?}"));
        perform(i, op);
        run_now().unwrap().envs[i].depth -= 1;
    }
    others();
}

/// Gives other trees their turn.
fn others() {
    let run = run_now().unwrap();
    let Some(&t) = run.turns.get(run.turn) else { return };
    run.turn += 1;
    if t == 0 {
        return;
    }
    let idle: Vec<usize> = run.envs.iter().filter(|e| !e.busy && e.at < e.program.ops.len() + 2).map(|e| e.id).collect();
    if !idle.is_empty() {
        run.inside += 1;
        step(idle[t as usize % idle.len()]);
    }
}

fn scene(shape: u8) -> NodeScene {
    fn one(class: u8, name: &str, val: i64) -> NodeScene {
        if class == 0 {
            let mut n = W0::new();
            n.set_name(name);
            *n.val = val;
            NodeScene::new(n)
        } else {
            let mut n = W1::new();
            n.set_name(name);
            *n.val = val;
            NodeScene::new(n)
        }
    }
    let bit = |i: u8| (shape >> i) & 1;
    let mut s = one(bit(0), "S", (shape % 7) as i64);
    if bit(1) == 1 {
        let mut k = one(bit(2), "A", 0);
        if bit(3) == 1 {
            k.append(one(bit(4), "A", 2));
        }
        if bit(5) == 1 {
            s.append(k)
        } else {
            s.append_as_owner(k)
        }
    }
    if bit(4) == 1 {
        s.append(one(bit(6), "A", 1));
    }
    if bit(7) == 1 { NodeScene::load_from_str(&s.save_to_str().unwrap()).unwrap() } else { s }
}

const NAMES: [&str; 5] = ["A", "A1", "S", "B", "A9"];

/// The next operation of a tree.
fn step(i: usize) {
    let env = &mut run_now().unwrap().envs[i];
    env.busy = true;
    let at = env.at;
    env.at += 1;
    if at == 0 {
        let (own, shape, v) = (env.program.own, env.program.shape, env.program.verbosity.clone());
        let before = Instant::now();
        let made = catches(|| {
            if own {
                let mut t = Box::new(Own { base: None });
                initialize_base(&mut t, scene(shape), v);
                Box::into_raw(t) as *mut dyn NodeTree
            } else {
                Box::into_raw(node_tree::trees::TreeSimple::new(scene(shape), v)) as *mut dyn NodeTree
            }
        });
        let env = &mut run_now().unwrap().envs[i];
        env.last = (before, Instant::now());
        match made {
            Ok(t) => {
                if let Some(known) = env.tree {
                    ensure!(known as *const () == t as *const (), "the nodes of a tree refer to another one");
                }
                env.tree = Some(t);
            }
            Err(_) => {
                env.tree = None;
                env.trace.push("creation panicked".into());
            }
        }
    } else if at <= env.program.ops.len() {
        let op = env.program.ops[at - 1];
        env.trace.push(format!("{op:?}"));
        if env.tree.is_some() {
            perform(i, op);
        }
    } else if let Some(tree) = env.tree {
        if catches(|| show(i)).is_err() {
            run_now().unwrap().envs[i].trace.push("cannot be shown".into());
        }
        let env = &mut run_now().unwrap().envs[i];
        env.tree = None;
        env.held.clear();
        drop(unsafe { Box::from_raw(tree) });
    }
    run_now().unwrap().envs[i].busy = false;
}

fn perform(i: usize, op: Op) {
    if catches(|| act(i, op)).is_err() {
        run_now().unwrap().envs[i].trace.push("panicked".into());
    }
}

fn say(i: usize, t: String) {
    run_now().unwrap().envs[i].trace.push(t);
}

fn act(i: usize, op: Op) {
    let env = &mut run_now().unwrap().envs[i];
    let tree: &mut NodeTreeBase = unsafe { &mut *env.tree.unwrap() };
    let alive: Vec<RID> = env.seen.iter().copied().filter(|r| tree.get_node(*r).is_some()).collect();
    let Some(&rid) = alive.get(op.a as usize % alive.len().max(1)) else { return };
    let name = NAMES[op.b as usize % NAMES.len()];
    let node = tree.get_node_mut(rid).unwrap();
    match op.kind {
        0 => {
            if op.b % 2 == 0 {
                let mut n = W0::new();
                n.set_name(name);
                *n.val = (op.b / 2) as i64;
                node.add_child(n);
            } else {
                let mut n = W1::new();
                n.set_name(name);
                *n.val = (op.b / 2) as i64;
                node.add_child(n);
            }
        }
        1 => node.add_child(scene(op.b)),
        2 => {
            if !node.is_root() || op.b < 20 {
                node.free()
            }
        }
        3 => {
            let r = node.remove_child(name);
            say(i, format!("{r}"));
        }
        4 => {
            node.set_name(name);
            let now = node.name().to_string();
            say(i, now);
        }
        5 => {
            if env.depth == 0 {
                frame(i);
            }
        }
        6 => {
            if op.b % 2 == 0 {
                tree.pause()
            } else {
                tree.unpause()
            }
        }
        7 => {
            let t = format!("message {}", op.b);
            node.post(match op.b {
                0..=9 => Log::Panic(&t),
                10..=99 => Log::Warn(&t),
                100..=170 => Log::Info(&t),
                _ => Log::Debug(&t),
            })
        }
        8 => {
            let r = tree.register_as_singleton(rid, name.to_string());
            say(i, format!("{r:?}"));
        }
        9 => {
            let r = tree.get_node_rid(name, None);
            say(i, format!("{r:?}"));
        }
        10 => {
            let path = ["A", "../A", "/S/A", "A/A1", "..", "/S", "./B/.."][op.b as usize % 7];
            let found = node.get_node_dyn(NodePath::from_str(path)).to_option().map(|p| p.rid());
            say(i, format!("{found:?}"));
        }
        11 => {
            let s = node.save_as_branch();
            say(i, format!("{} kids, hash equal to itself: {}", s.children().len(), s.structural_hash() == s.clone().structural_hash()));
            run_now().unwrap().envs[i].scenes.push(s);
        }
        12 | 13 => {
            if let Some(s) = env.scenes.get(op.b as usize % env.scenes.len().max(1)) {
                let s = if op.kind == 12 { s.clone() } else { NodeScene::load_from_str(&s.save_to_str().unwrap()).unwrap() };
                if alive.len() < 30 {
                    node.add_child(s);
                }
            }
        }
        14 => {
            if op.b < 60 {
                tree.queue_termination();
            }
        }
        15 => {
            let to = alive[op.b as usize % alive.len()];
            let path = tree.get_node(to).unwrap().get_absolute_path();
            let Some(p) = tree.get_node(rid).unwrap().get_node_dyn(path).to_option().filter(|p| p.rid() == to) else { return };
            let p = unsafe { std::mem::transmute::<TpDyn<'_>, TpDyn<'static>>(p) };
            // It is equal to exactly those pointers that it should be equal to.
            let run = run_now().unwrap();
            let hasher = RandomState::new();
            for (e, (owner, target, q)) in run.envs.iter().flat_map(|e| e.held.iter().map(move |h| (e.id, h))) {
                let same = e == i && *owner == rid && *target == to;
                ensure!((p == *q) == same, "the pointer to {to} of {rid} in tree {i} and that to {target} of {owner} in tree {e} are equal: {}", !same);
                ensure!(!same || hasher.hash_one(p) == hasher.hash_one(*q), "equal pointers have different hashes");
            }
            run.envs[i].held.push((rid, to, p));
        }
        16 => {
            if let Some((_, _, p)) = env.held.get(op.b as usize % env.held.len().max(1)) {
                let t = if p.is_valid() { format!("{} {}", p.name(), p.rid()) } else { "null".into() };
                say(i, t);
            }
        }
        17 => {
            let t = node_tree::utils::functions::draw_tree(tree, rid, (op.b % 4) as usize, (op.b / 4 % 4) as usize);
            say(i, t);
        }
        18 => {
            let to = alive[op.b as usize % alive.len()];
            let target = unsafe { Tp::<W0>::new(env.tree.unwrap(), rid, to) }.to_option();
            let fresh = env.connected.insert(rid);
            if let (Some(target), true) = (target, fresh) {
                let handler = move |v: &i64| if target.is_valid() { target.got(v) };
                let id = match (node.as_any_ref().downcast_ref::<W0>(), node.as_any_ref().downcast_ref::<W1>()) {
                    (Some(n), _) => unsafe { n.sig.connect(handler) },
                    (_, Some(n)) => unsafe { n.sig.connect(handler) },
                    _ => unreachable!(),
                };
                say(i, format!("connection {id}"));
            }
        }
        19 => {
            let v = op.b as i64;
            match (node.as_any_ref().downcast_ref::<W0>(), node.as_any_ref().downcast_ref::<W1>()) {
                (Some(n), _) => n.sig.emit(v),
                (_, Some(n)) => n.sig.emit(v),
                _ => unreachable!(),
            }
        }
        20 => tree.set_default_header_on_panic(name),
        21 => tree.set_default_footer_on_panic(name),
        _ => {
            let t = format!(
                "{:?} {:?} {} {:?}",
                node.children().iter().map(|k| k.rid()).collect::<Vec<_>>(),
                node.owner_dyn().rid(),
                node.depth(),
                node.status()
            );
            say(i, t);
        }
    }
}

/// Everything that can be seen of a tree.
fn show(i: usize) {
    let env = &mut run_now().unwrap().envs[i];
    let tree: &mut NodeTreeBase = unsafe { &mut *env.tree.unwrap() };
    let mut t = String::new();
    for line in tree.get_log().lines() {
        let line = if line.starts_with("Time of Crash") { "Time of Crash" } else { line.split_once(" UTC> ").map(|(_, l)| l).unwrap_or(line) };
        t += line;
        t.push('\n');
    }
    for rid in &env.seen {
        if let Some(n) = tree.get_node(*rid) {
            t += &format!("{rid} is {} at {} with {:?}\n", n.name_as_type(), n.get_absolute_path().to_string(), n.children().iter().map(|k| k.rid()).collect::<Vec<_>>());
        }
    }
    for n in NAMES {
        t += &format!("{n} is {:?}\n", tree.get_node_rid(n, None));
    }
    for (owner, to, p) in &env.held {
        t += &format!("the pointer of {owner} to {to} is {}\n", p.is_valid());
    }
    say(i, t);
    frame(i);
}

fn frame(i: usize) {
    let env = &mut run_now().unwrap().envs[i];
    let tree: &mut NodeTreeBase = unsafe { &mut *env.tree.unwrap() };
    let began = Instant::now();
    env.began = began;
    let r = catches(|| tree.process());
    run_now().unwrap().envs[i].last = (began, Instant::now());
    match r {
        Ok(s) => say(i, format!("{s:?}")),
        Err(_) => say(i, "the frame panicked".into()),
    }
}

fn fresh(id: usize, program: Program) -> Env {
    Env { id, program, tree: None, at: 0, hook_at: 0, depth: 0, busy: false, seen: vec![], scenes: vec![], held: vec![], connected: HashSet::new(), trace: vec![], last: (Instant::now(), Instant::now()), began: Instant::now() }
}

fn run(programs: &[Program], turns: Vec<u8>, mut order: impl FnMut(usize) -> usize) -> Run {
    let mut run = Run { envs: programs.iter().enumerate().map(|(i, p)| fresh(i, p.clone())).collect(), turns, turn: 0, inside: 0 };
    RUN.with(|r| *r.borrow_mut() = Some(&mut run));
    struct Off;
    impl Drop for Off {
        fn drop(&mut self) {
            RUN.with(|r| *r.borrow_mut() = None);
        }
    }
    let off = Off;
    loop {
        let left: Vec<usize> = run_now().unwrap().envs.iter().filter(|e| e.at < e.program.ops.len() + 2).map(|e| e.id).collect();
        if left.is_empty() {
            break;
        }
        step(left[order(left.len())]);
    }
    drop(off);
    run
}

pub fn check(c: &mut Ctx) {
    let n = c.range(2, 3);
    let op = |c: &mut Ctx| Op {
        kind: c.weighted(&[6, 4, 3, 2, 2, 5, 2, 3, 3, 2, 3, 2, 2, 2, 1, 3, 2, 1, 2, 2, 1, 1, 1]) as u8,
        a: c.draw(256) as u8,
        b: c.draw(256) as u8,
    };
    let mut programs = vec![];
    for i in 0..n {
        // Often the same program as another one.
        if i > 0 && c.chance(1, 3) {
            programs.push(Program::clone(&programs[0]));
            c.label("same program");
            continue;
        }
        let verbosity = c.pick(&[LoggerVerbosity::All, LoggerVerbosity::NoDebug, LoggerVerbosity::OnlyIssues, LoggerVerbosity::OnlyPanics]).clone();
        let (shape, own) = (c.draw(256) as u8, c.flag());
        let ops = (0..c.range(1, 12)).map(|_| op(c)).collect();
        let hooks = (0..c.range(0, 24)).map(|_| if c.chance(1, 4) { Some(op(c)) } else { None }).collect();
        let p = Program { verbosity, shape, own, ops, hooks };
        c.note(|| format!("program {i}: {p:?}"));
        programs.push(p);
    }
    let turns: Vec<u8> = (0..c.range(0, 40)).map(|_| if c.chance(1, 3) { 1 + c.draw(5) as u8 } else { 0 }).collect();
    let alone: Vec<Vec<String>> = programs.iter().map(|p| std::mem::take(&mut run(std::slice::from_ref(p), vec![], |_| 0).envs[0].trace)).collect();
    let (mut last, mut switches) = (0, 0);
    let together = run(&programs, turns, |k| {
        let x = c.below(k);
        switches += (x != last) as u32;
        last = x;
        x
    });
    for (i, (a, t)) in alone.iter().zip(&together.envs).enumerate() {
        let t = &t.trace;
        if let Some(k) = (0..a.len().max(t.len())).find(|k| a.get(*k) != t.get(*k)) {
            for l in &a[..k.min(a.len())] {
                c.note(|| format!("    {l}"));
            }
            violate(format!("tree {i} behaves differently next to others: alone {:?}, together {:?}", a.get(k), t.get(k)));
        }
    }
    c.steps += programs.iter().map(|p| p.ops.len() as u64).sum::<u64>();
    if together.inside > 0 {
        c.label("turns inside hooks");
    }
    if together.envs.iter().any(|e| e.trace.iter().any(|t| t.contains("panicked"))) {
        c.label("something panicked");
    }
    c.nontrivial = (switches > 2 || together.inside > 0) && alone.iter().map(|a| a.len()).sum::<usize>() > 12;
}
