//! Random histories on a tree: the operations, what they are drawn from, and their effect on the model.

use crate::engine::*;
use crate::nodes::*;
use crate::with_class;
use crate::world::*;
use node_tree::prelude::*;
use node_tree::structs::node_tree_base::NodeIdentity;
use std::collections::BTreeSet;
use std::hash::{DefaultHasher, Hash, Hasher};

pub const NAMES: [&str; 12] = ["A", "B", "A1", "A2", "Node", "N 0", "É", "x_1", "A9", "A09", "ab.c", "A10"];
pub const SINGLES: [&str; 5] = ["S", "T", "A", "Root", "un ique"];
/// Names that only differ from others by something a comparison could overlook.
pub const ODD_NAMES: [&str; 16] = ["a", "b", "é", "E\u{301}", " A", "A ", "...", ".A", "A.", "A\\B", "node", "NODE", "A1 ", "A01", "\u{200b}A", "B\tB"];

/// A name that is almost `name`.
pub fn near(c: &mut Ctx, name: &str) -> String {
    let mut chars: Vec<char> = name.chars().collect();
    match c.below(9) {
        0 => return name.to_lowercase(),
        1 => return name.to_uppercase(),
        2 => chars.push(' '),
        3 => chars.insert(0, ' '),
        4 => chars.push(*c.pick(&['1', '0', 'a', '.'])),
        5 => _ = chars.pop(),
        6 if !chars.is_empty() => _ = chars.remove(0),
        7 => chars.reverse(),
        _ => chars.extend(chars.clone()),
    }
    chars.into_iter().collect()
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Op {
    AddPlain,
    AddScene,
    RemoveChild,
    RemoveMissing,
    Free,
    Rename,
    Single,
    Stop,
    Pause,
    Post,
    Hold,
    Branch,
    Pool,
    Frame,
    Mode,
    Path,
    Cast,
    Draw,
    Getters,
    DerefDead,
    Sleep,
    Note,
    Fail,
    Blame,
}
use Op::*;
const OPS: usize = Blame as usize + 1;

/// How often the operations are chosen, and what else shapes the histories of a property.
pub struct Profile {
    pub weights: &'static [(Op, u64)],
    /// The chance, in hundredths, that a hook acts.
    pub hooks: u64,
    pub size: usize,
    pub steps: usize,
    /// Whether the tree is compared inside hooks as well.
    pub inner_audit: bool,
    pub modes: bool,
    pub log: bool,
}

const BASIC: Profile = Profile {
    weights: &[(Frame, 6), (AddPlain, 6), (AddScene, 5), (RemoveChild, 4), (Free, 5), (Rename, 4), (Pool, 2), (Branch, 1), (RemoveMissing, 1), (Single, 1), (Hold, 1), (Post, 1), (Mode, 1), (Pause, 1), (Stop, 1)],
    hooks: 15,
    size: 8,
    steps: 14,
    inner_audit: true,
    modes: true,
    log: false,
};

pub fn profile(pid: &str) -> Profile {
    match pid {
        "P02" => Profile { weights: &[(Rename, 10), (AddPlain, 8), (AddScene, 4), (Free, 3), (RemoveChild, 1), (Frame, 1), (Pool, 1)], hooks: 8, size: 6, steps: 20, inner_audit: false, modes: false, log: false },
        "P03" => Profile { weights: &[(Hold, 12), (Free, 7), (RemoveChild, 4), (AddPlain, 7), (AddScene, 4), (Getters, 3), (DerefDead, 1), (Blame, 1), (Frame, 2), (Single, 1), (Rename, 1), (Branch, 1)], ..BASIC },
        "P04" => Profile { weights: &[(Path, 24), (AddPlain, 3), (AddScene, 3), (Free, 2), (RemoveChild, 1), (Rename, 4), (Frame, 1), (Single, 1)], size: 10, ..BASIC },
        "P05" => Profile { weights: &[(Single, 16), (Free, 4), (RemoveChild, 3), (AddPlain, 4), (AddScene, 2), (Rename, 2), (Frame, 2), (Hold, 1), (Getters, 1)], size: 5, ..BASIC },
        "P06" => Profile { weights: &[(AddScene, 14), (Pool, 8), (AddPlain, 4), (Free, 3), (RemoveChild, 2), (Branch, 3), (Frame, 2), (Rename, 1)], hooks: 22, size: 7, steps: 10, ..BASIC },
        "P07" => Profile { weights: &[(Frame, 16), (Mode, 8), (Pause, 6), (AddPlain, 4), (AddScene, 3), (Free, 4), (RemoveChild, 2), (Sleep, 1), (Stop, 1)], hooks: 14, size: 9, steps: 16, ..BASIC },
        "P08" => Profile { weights: &[(Frame, 16), (Stop, 5), (Pause, 2), (Mode, 3), (AddPlain, 3), (AddScene, 2), (Free, 4), (RemoveChild, 2), (Post, 2)], hooks: 14, size: 6, steps: 14, ..BASIC },
        "P09" => Profile { weights: &[(Free, 10), (RemoveChild, 9), (RemoveMissing, 2), (AddPlain, 6), (AddScene, 6), (Frame, 7), (Pool, 1), (Rename, 2), (Stop, 1)], hooks: 22, size: 10, ..BASIC },
        "P14" => Profile { weights: &[(Post, 16), (Single, 4), (Rename, 4), (AddPlain, 3), (AddScene, 2), (Free, 3), (RemoveChild, 1), (RemoveMissing, 1), (Frame, 6), (Stop, 1), (DerefDead, 1), (Hold, 1), (Blame, 1)], size: 6, log: true, ..BASIC },
        "P22" => Profile { weights: &[(Cast, 14), (Blame, 3), (Hold, 8), (Free, 5), (RemoveChild, 2), (AddPlain, 6), (AddScene, 4), (Frame, 1)], ..BASIC },
        "P23" => Profile { weights: &[(Draw, 16), (Post, 8), (AddPlain, 5), (AddScene, 5), (Free, 3), (RemoveChild, 1), (Rename, 2), (Frame, 3)], size: 12, log: true, ..BASIC },
        "P21" => Profile { weights: &[(Frame, 7), (AddPlain, 5), (AddScene, 5), (RemoveChild, 5), (RemoveMissing, 1), (Free, 7), (Rename, 2), (Single, 2), (Stop, 1), (Pause, 1), (Post, 2), (Hold, 5), (Branch, 2), (Pool, 4), (Mode, 1), (Path, 2), (Cast, 2), (Draw, 1), (Getters, 2), (DerefDead, 1), (Note, 1), (Fail, 1), (Blame, 1)], hooks: 20, log: true, ..BASIC },
        "P26" => Profile { weights: &[(Pool, 10), (Branch, 5), (AddScene, 8), (AddPlain, 4), (Free, 6), (RemoveChild, 4), (RemoveMissing, 1), (Frame, 3), (Rename, 1), (Stop, 1), (Single, 1), (Fail, 1)], ..BASIC },
        "P18" => Profile { weights: &[(Branch, 8), (Pool, 10), (AddScene, 10), (Note, 6), (Free, 4), (AddPlain, 3), (RemoveChild, 1), (Frame, 1), (Rename, 2)], ..BASIC },
        _ => BASIC,
    }
}

pub fn scene_name(c: &mut Ctx) -> String {
    if c.pid == "P02" && c.chance(1, 2) {
        let stem = *c.pick(&["A", "A", "A", "", "A1x", "É", "x٣", "n ", "A²", "-"]);
        let digits = *c.pick(&["", "1", "2", "3", "0", "00", "9", "09", "10", "11", "99", "100", "4294967294", "4294967295", "4294967296", "18446744073709551615", "99999999999999999999999"]);
        let name = format!("{stem}{digits}");
        return if c.chance(1, 12) { near(c, &name) } else { name };
    }
    if c.chance(1, 16) {
        let name = c.pick(&ODD_NAMES).to_string();
        return name;
    }
    c.pick(&NAMES).to_string()
}

/// Headers and footers of crash reports; the last two are those which the library begins with.
const CRASH_TEXTS: [&str; 11] = [
    "Header!", "two\nlines", "", "  spaced  ", "tail \n", "\n\nlead", "{} {0} %s", "Ünï→\tcode", "\"quoted\" \\n",
    "Unfortunately the program has crashed", "Goodbye World!",
];

/// The size of scenes which are of hundreds of nodes.
const HUGE: usize = 256;

impl World {
    pub fn fresh_val(&mut self) -> i64 {
        self.next_val += 1;
        self.next_val
    }

    /// A random scene with at most `size` nodes, or at times a long chain or a node with many children.
    pub fn gen_shape(&mut self, size: usize) -> MScene {
        let c = self.c();
        if size >= HUGE {
            return self.gen_huge();
        }
        if size < 3 || !c.chance(1, 24) {
            return self.gen_small(size);
        }
        let mut s = self.gen_small(1);
        let n = c.range(3, 9);
        if c.flag() {
            c.label("deep scene");
            for _ in 0..n {
                let mut top = self.gen_small(1);
                s.owner = c.chance(1, 3);
                top.kids.push(s);
                if c.chance(1, 5) {
                    top.kids.push(self.gen_small(1));
                }
                s = top;
            }
        } else {
            c.label("wide scene");
            for _ in 0..n {
                let mut k = self.gen_small(1);
                k.owner = c.chance(1, 3);
                s.kids.push(k);
            }
            if c.flag() {
                let mut top = self.gen_small(1);
                top.kids.push(s);
                s = top;
            }
        }
        s
    }

    /// Some 300 nodes in a chain, below one node or in two layers.
    fn gen_huge(&mut self) -> MScene {
        let c = self.c();
        let n = c.range(256, 330);
        let what = c.below(3);
        let owners = c.below(3) as u64;
        let mut nodes: Vec<MScene> = (0..n)
            .map(|_| {
                let mut s = self.gen_small(1);
                s.owner = c.chance(owners, 4);
                s
            })
            .collect();
        let mut top = nodes.pop().unwrap();
        match what {
            0 => {
                c.label("chain of hundreds");
                for mut s in nodes {
                    s.kids.push(top);
                    top = s;
                }
            }
            1 => {
                c.label("hundreds of siblings");
                top.kids = nodes;
            }
            _ => {
                c.label("hundreds in two layers");
                while !nodes.is_empty() {
                    let n = c.range(1, 30).min(nodes.len());
                    let kids = nodes.split_off(nodes.len() - n);
                    let mut s = self.gen_small(1);
                    s.owner = c.chance(owners, 4);
                    s.kids = kids;
                    top.kids.push(s);
                }
            }
        }
        top
    }

    fn gen_small(&mut self, size: usize) -> MScene {
        let c = self.c();
        let class = c.below(CLASSES as usize) as u8;
        let name = if c.chance(1, 6) { CLASS_NAMES[class as usize].to_string() } else { scene_name(c) };
        let mut s = MScene { class, name, val: self.fresh_val(), note: Some(c.below(100) as i64), uniq: Some(7), from_disk: false, owner: false, kids: vec![], origin: 0 };
        let mut left = size.saturating_sub(1);
        while left > 0 && c.chance(3, 4) {
            let n = c.range(1, left);
            let mut k = self.gen_small(n);
            k.owner = c.chance(1, 3);
            left -= k.size().min(left);
            s.kids.push(k);
        }
        s
    }

    pub fn build_scene(s: &MScene) -> NodeScene {
        let mut scene = if s.val % 2 == 0 {
            NodeScene::new_dyn(make(s.class, Some(&s.name), s.val, s.note.unwrap()))
        } else {
            with_class!(s.class, T => {
                let mut n = T::new();
                n.set_name(&s.name);
                *n.val = s.val;
                *n.note = s.note.unwrap();
                NodeScene::new(n)
            })
        };
        for k in &s.kids {
            let kid = Self::build_scene(k);
            if k.owner {
                scene.append_as_owner(kid);
            } else {
                scene.append(kid);
            }
        }
        scene
    }

    /// Some scene, and what it must contain.
    pub fn gen_scene(&mut self, size: usize) -> (NodeScene, MScene) {
        let c = self.c();
        if !self.pool.is_empty() && c.chance(1, 3) {
            let i = c.below(self.pool.len());
            if c.flag() {
                return self.pool.swap_remove(i);
            }
            let (s, m) = &self.pool[i];
            return (s.clone(), m.cloned());
        }
        let mut shape = self.gen_shape(size);
        shape.owner = true;
        let mut scene = Self::build_scene(&shape);
        loop {
            match c.weighted(&[6, 2, 1]) {
                0 => break,
                1 => {
                    c.label("scene went through text");
                    let t = self.lib(&["P10"], "save_to_str", || scene.save_to_str());
                    let Ok(t) = t else { self.fail(&["P10"], format!("save_to_str failed: {t:?}")) };
                    match self.lib(&["P10", "P12"], "load_from_str", || NodeScene::load_from_str(&t)) {
                        Ok(s) => scene = s,
                        Err(e) => self.fail(&["P10"], format!("a saved scene cannot be loaded: {e}\n{t}")),
                    }
                    shape = shape.loaded();
                }
                _ => {
                    c.label("scene was cloned");
                    scene = scene.clone();
                    shape = shape.cloned();
                }
            }
        }
        (scene, shape)
    }

    fn any_node(&mut self) -> Option<u64> {
        let ids: Vec<u64> = self.alive.keys().copied().collect();
        if ids.is_empty() { None } else { Some(*self.c().pick(&ids)) }
    }

    /// Some node, preferably one near the caller.
    fn target(&mut self, caller: Option<u64>) -> Option<u64> {
        let c = self.c();
        if let Some(s) = caller.filter(|s| self.alive.contains_key(s)) {
            let m = self.m(s).clone();
            match c.weighted(&[4, 6, 2, 2, 2]) {
                0 => (),
                1 => return Some(s),
                2 => {
                    if m.parent.is_some() {
                        return m.parent;
                    }
                }
                3 => {
                    if !m.kids.is_empty() {
                        return Some(*c.pick(&m.kids));
                    }
                }
                _ => {
                    if let Some(p) = m.parent {
                        let k = self.m(p).kids.clone();
                        return Some(*c.pick(&k));
                    }
                }
            }
        }
        self.any_node()
    }

    /// Does one random operation, on behalf of a hook of `caller` if there is one.
    pub fn step(&mut self, caller: Option<u64>, p: &Profile) {
        let c = self.c();
        let allowed: Vec<(Op, u64)> = p.weights.iter().copied().filter(|(o, _)| caller.is_none() || !matches!(o, Frame)).collect();
        let w: Vec<u64> = allowed.iter().map(|x| x.1 * self.swarm.get(x.0 as usize).copied().unwrap_or(2)).collect();
        if w.iter().all(|w| *w == 0) {
            return;
        }
        c.step();
        let op = allowed[c.weighted(&w)].0;
        self.do_op(op, caller, p);
    }

    pub fn do_op(&mut self, op: Op, caller: Option<u64>, p: &Profile) {
        let c = self.c();
        match op {
            Frame => {
                if c.chance(1, 40) && self.pid == "P07" {
                    // Mostly short ones; but time behaves alike over longer spans.
                    let ms = match c.below(2000) {
                        0 => c.range(1001, 2500),
                        1..=4 => c.range(101, 400),
                        _ => 2,
                    };
                    c.note(|| format!("sleep {ms} ms"));
                    if ms > 2 {
                        c.label(if ms > 1000 { "frame after seconds" } else { "frame after tenths of a second" });
                    }
                    std::thread::sleep(std::time::Duration::from_millis(ms as u64));
                }
                self.frame()
            }
            Sleep => {
                c.note(|| "sleep 2 ms".into());
                std::thread::sleep(std::time::Duration::from_millis(2))
            }
            AddPlain => {
                if self.alive.len() > if self.huge { 700 } else if self.big { 150 } else { 40 } {
                    return;
                }
                if let Some(to) = self.target(caller).filter(|s| !self.m(*s).locked) {
                    let mut shape = self.gen_shape(1);
                    shape.note = Some(shape.note.unwrap_or(0));
                    self.add(to, None, shape);
                }
            }
            AddScene => {
                if self.alive.len() > if self.huge { 690 } else if self.big { 140 } else { 30 } {
                    return;
                }
                if let Some(to) = self.target(caller).filter(|s| !self.m(*s).locked) {
                    let size = if self.huge && c.chance(1, 6) { HUGE } else { c.range(1, if self.big { 24 } else { 6 }) };
                    let (scene, shape) = self.gen_scene(size);
                    if self.alive.len() + shape.size() > if self.huge { 700 } else if self.big { 180 } else { 60 } {
                        return;
                    }
                    self.add(to, Some(scene), shape);
                }
            }
            RemoveChild => {
                if let Some(s) = self.target(caller) {
                    if self.m(s).parent.is_some() && self.removable(s) {
                        self.remove(s, TerminationReason::RemovedAsChild, None);
                    }
                }
            }
            RemoveMissing => {
                if let Some(s) = self.target(caller) {
                    let kid = self.m(s).kids.last().map(|k| self.m(*k).name.clone());
                    let name = match kid {
                        Some(kid) if c.chance(2, 3) => near(c, &kid),
                        _ => c.pick(&["A", "nobody", "", "A77", "/", "*", "a"]).to_string(),
                    };
                    if !self.m(s).kids.iter().any(|k| self.m(*k).name == name) && !self.m(s).locked {
                        self.remove_missing(s, &name);
                    }
                }
            }
            Free => {
                if let Some(s) = self.target(caller) {
                    let spare_root = self.m(s).parent.is_none() && !c.chance(1, 6);
                    if self.removable(s) && !spare_root {
                        let through = if c.flag() {
                            self.held.iter().find_map(|h| match &h.ptr {
                                HeldPtr::Dyn(tp) if h.target == s => Some(*tp),
                                _ => None,
                            })
                        } else {
                            None
                        };
                        self.remove(s, TerminationReason::Freed, through);
                    }
                }
            }
            Rename => {
                if let Some(s) = self.target(caller) {
                    if self.any_locked() {
                        return;
                    }
                    let name = if c.chance(1, 4) {
                        let o = self.any_node().unwrap();
                        let name = self.m(o).name.clone();
                        let near = if c.chance(1, 3) { near(c, &name) } else { name };
                        if self.pid != "P02" && (matches!(near.as_str(), "" | "." | "..") || near.contains('/')) { "A".to_string() } else { near }
                    } else {
                        scene_name(c)
                    };
                    self.rename(s, &name);
                }
            }
            Single => self.op_single(caller),
            Stop => {
                if c.chance(2, 3) {
                    c.note(|| "queue_termination".into());
                    self.base().queue_termination();
                    if let TStat::Proc(p) = self.status {
                        self.set_status(TStat::Queued(p));
                        c.label("termination queued");
                    }
                } else if c.flag() {
                    c.note(|| "terminate".into());
                    self.base().terminate();
                    self.set_status(TStat::Terminated);
                    c.label("terminated");
                }
            }
            Pause => {
                let pause = c.flag();
                c.note(|| if pause { "pause".into() } else { "unpause".into() });
                if pause {
                    self.base().pause();
                } else {
                    self.base().unpause();
                }
                match self.status {
                    TStat::Proc(_) => self.set_status(TStat::Proc(pause)),
                    TStat::Queued(_) => self.set_status(TStat::Queued(pause)),
                    _ => (),
                }
            }
            Mode => {
                if let Some(s) = self.target(caller) {
                    let m = *c.pick(&[ProcessMode::Inherit, ProcessMode::Always, ProcessMode::Pausable, ProcessMode::Inverse]);
                    self.set_mode(s, m);
                }
            }
            Post => self.op_post(caller),
            Hold => self.op_hold(caller),
            Branch => {
                if self.any_locked() {
                    return;
                }
                if let Some(s) = self.target(caller) {
                    let shape = self.branch_shape(s, true);
                    c.note(|| format!("{}.save_as_branch()", self.who(s)));
                    c.label("branch saved");
                    let node = self.node(s);
                    let scene = self.lib(&["P18"], "save_as_branch", || node.save_as_branch());
                    self.check_scene(&scene, &shape);
                    self.pool.push((scene, shape));
                }
            }
            Pool => self.op_pool(),
            Path => self.op_path(caller),
            Cast => self.op_cast(caller),
            Draw => self.op_draw(caller),
            Getters => self.op_getters(),
            DerefDead => self.op_deref_dead(),
            Blame => self.op_blame(caller),
            Note => {
                if let Some(s) = self.target(caller) {
                    let v = c.below(1000) as i64;
                    let class = self.m(s).class;
                    let node = self.node(s);
                    with_class!(class, T => {
                        if let Some(n) = node.as_any_mut().downcast_mut::<T>() {
                            *n.val = v;
                        }
                    });
                    c.note(|| format!("{}.val = {v}", self.who(s)));
                    self.alive.get_mut(&s).unwrap().val = v;
                }
            }
            Fail => {
                if let Some(s) = self.target(caller) {
                    let rid = self.m(s).rid;
                    let tree = self.tree.unwrap();
                    let r = catches(|| unsafe {
                        if self.c().flag() {
                            TreeOption::<()>::new(tree, rid, None).unwrap()
                        } else {
                            TreeResult::<(), String>::new(tree, rid, Err("no".into())).unwrap()
                        }
                    });
                    if r.is_ok() {
                        self.fail(&["P15"], "unwrap of nothing does not panic");
                    }
                    self.entries.push(Entry { level: "PANIC!", system: self.system(s), msg: None, crash: None });
                    self.alive.get_mut(&s).unwrap().status = MStat::Unknown;
                    self.set_status(TStat::Terminated);
                }
            }
        }
        if p.log {
            self.check_log();
        }
    }

    pub fn branch_shape(&self, s: u64, root: bool) -> MScene {
        let m = self.m(s);
        MScene {
            class: m.class,
            name: m.name.clone(),
            val: m.val,
            note: m.note,
            uniq: None,
            from_disk: false,
            owner: root || m.owner == s,
            kids: m.kids.iter().map(|k| self.branch_shape(*k, false)).collect(),
            origin: 2,
        }
    }

    /// Compares a scene with what it must contain, without touching its nodes.
    pub fn check_scene(&self, scene: &NodeScene, want: &MScene) {
        fn shape(s: &NodeScene) -> String {
            format!("{}({})", if s.is_owner { "*" } else { "" }, s.children().iter().map(shape).collect::<Vec<_>>().join(" "))
        }
        fn wshape(s: &MScene) -> String {
            format!("{}({})", if s.owner { "*" } else { "" }, s.kids.iter().map(wshape).collect::<Vec<_>>().join(" "))
        }
        let (a, b) = (shape(scene), wshape(want));
        if a != b {
            let tags: &[&str] = match want.origin {
                0 => &["P18", "P10"],
                1 => &["P10"],
                2 => &["P18"],
                _ => &["P10", "P18"],
            };
            self.fail(tags, format!("a scene has the shape {a}, expected {b} of {}", want.text()));
        }
    }

    fn op_pool(&mut self) {
        let c = self.c();
        let i = if self.pool.is_empty() { 99 } else { c.weighted(&[2, 2, 2, 2, 2, 1, 1]) };
        match i {
            1 => {
                let i = c.below(self.pool.len());
                c.note(|| format!("clone scene {i}"));
                let (s, m) = &self.pool[i];
                let (s, m) = (s.clone(), m.cloned());
                self.check_scene(&s, &m);
                self.pool.push((s, m));
            }
            2 if self.pool.len() > 1 => {
                let (s, mut m) = self.pool.swap_remove(c.below(self.pool.len()));
                let (s2, m2) = &mut self.pool[0];
                if m.size() + m2.size() < 20 {
                    m.owner = c.flag();
                    c.note(|| format!("append scene to scene, owner {}", m.owner));
                    if m.owner {
                        s2.append_as_owner(s);
                    } else {
                        s2.append(s);
                    }
                    m2.kids.push(m);
                }
            }
            3 => {
                let i = c.below(self.pool.len());
                let via_file = c.chance(1, 8);
                let t = {
                    let (s, _) = &self.pool[i];
                    self.lib(&["P10"], "save_to_str", || s.save_to_str())
                };
                let Ok(t) = t else { self.fail(&["P10"], "save_to_str failed") };
                let r = if via_file {
                    let dir = std::env::var("NTCHECK_TMP").unwrap_or_else(|_| "/tmp".into());
                    let name = format!("h{}", std::process::id());
                    let path = std::path::Path::new(&dir);
                    let w = self.pool[i].0.save(path, &name);
                    if w.is_err() {
                        self.fail(&["P10"], format!("save failed: {w:?}"));
                    }
                    self.lib(&["P10", "P12"], "load", || NodeScene::load(&path.join(format!("{name}.scn"))))
                } else {
                    self.lib(&["P10", "P12"], "load_from_str", || NodeScene::load_from_str(&t))
                };
                let m = self.pool[i].1.loaded();
                match r {
                    Ok(s) => {
                        c.note(|| format!("save and load scene {i}"));
                        c.label("scene went through text");
                        self.check_scene(&s, &m);
                        self.pool.push((s, m));
                    }
                    Err(e) => self.fail(&["P10"], format!("a saved scene cannot be loaded: {e}\n{t}")),
                }
            }
            4 => {
                let (a, b) = (c.below(self.pool.len()), c.below(self.pool.len()));
                fn key(m: &MScene) -> String {
                    format!("{}{}({})", m.class, m.owner, m.kids.iter().map(key).collect::<Vec<_>>().join(","))
                }
                let same = key(&self.pool[a].1) == key(&self.pool[b].1);
                let (x, y) = (self.pool[a].0.structural_hash(), self.pool[b].0.structural_hash());
                if (x == y) != same {
                    self.fail(&["P18"], format!("hashes {x:x} and {y:x} of the scenes {} and {}", self.pool[a].1.text(), self.pool[b].1.text()));
                }
            }
            5 => {
                let i = c.below(self.pool.len());
                self.pool.swap_remove(i);
            }
            6 => {
                for (s, m) in &self.pool {
                    self.check_scene(s, m);
                }
            }
            _ => {
                if self.pool.len() < 5 {
                    let n = c.range(1, 5);
                    let x = self.gen_scene(n);
                    c.note(|| format!("new scene {}", x.1.text()));
                    self.check_scene(&x.0, &x.1);
                    self.pool.push(x);
                }
            }
        }
    }

    fn op_single(&mut self, caller: Option<u64>) {
        let c = self.c();
        let name = if c.chance(1, 5) { c.pick(&["", "s", "S ", "a", "/", "A/B", "..", ".", "root", "ROOT", "É", "S1", "un", "[S]"]).to_string() } else { c.pick(&SINGLES).to_string() };
        c.label("register_as_singleton");
        if c.chance(1, 8) {
            let rid = if let Some((_, rid)) = self.dead.last().filter(|_| c.flag()) { *rid } else { 100_000 };
            c.note(|| format!("tree.register_as_singleton({rid}, {name:?}) of no node"));
            let r = self.lib(&["P05"], "register_as_singleton", || self.base().register_as_singleton(rid, name.clone()));
            if r.is_some() {
                self.fail(&["P05"], format!("registering an invalid RID as {name:?} gave {r:?}"));
            }
            self.single_check(&name);
            return;
        }
        if c.chance(1, 4) {
            let other = near(c, &name);
            self.single_check(&other);
        }
        let Some(s) = self.target(caller) else { return };
        let free = !self.singles.contains_key(&name);
        let rid = self.m(s).rid;
        c.note(|| format!("{}.register_as_singleton({name:?})", self.who(s)));
        let r = if c.flag() {
            let node = self.node(s);
            self.lib(&["P05"], "register_as_singleton", || Some(node.register_as_singleton(name.clone())))
        } else {
            self.lib(&["P05"], "register_as_singleton", || self.base().register_as_singleton(rid, name.clone()))
        };
        if r != Some(free) {
            self.fail(&["P05"], format!("registering {} as {name:?} gave {r:?}, though the name is {}", self.who(s), if free { "free" } else { "taken" }));
        }
        if free {
            if self.dead.iter().any(|_| true) {
                c.label("registration after a removal");
            }
            self.singles.insert(name.clone(), s);
            self.alive.get_mut(&s).unwrap().ident = Some(name.clone());
        } else {
            c.label("name was taken");
        }
        self.single_check(&name);
    }

    pub fn single_check(&mut self, name: &str) {
        let want = self.singles.get(name).map(|s| self.m(*s).rid);
        let got = self.base().get_node_rid(name, None);
        if got != want {
            self.fail(&["P05"], format!("the name {name:?} gives {got:?}, expected {want:?}"));
        }
        if let Some(x) = self.any_node() {
            let rid = self.m(x).rid;
            let a = self.base().get_node_rid(name.to_string(), Some(rid));
            let node = self.node(x);
            let b = self.lib(&["P05"], "get_node_dyn", || node.get_node_dyn(name).to_result().map(|t| t.rid()));
            if a != want || b.as_ref().ok() != want.as_ref() {
                self.fail(&["P05"], format!("from {} the name {name:?} gives {a:?} and {b:?}, expected {want:?}", self.who(x)));
            }
        }
    }

    /// How the log attributes entries of a node.
    pub fn system(&self, s: u64) -> String {
        match &self.m(s).ident {
            Some(n) => n.clone(),
            None => format!("[{}]", self.path_names(s).join("/")),
        }
    }

    fn op_post(&mut self, caller: Option<u64>) {
        let c = self.c();
        if self.pid == "P14" && c.chance(1, 10) {
            let t = c.pick(&CRASH_TEXTS).to_string();
            c.note(|| format!("set crash header or footer to {t:?}"));
            if c.flag() {
                self.base().set_default_header_on_panic(&t);
                self.header = Some(t);
            } else {
                self.base().set_default_footer_on_panic(&t);
                self.footer = Some(t);
            }
            return;
        }
        let Some(s) = self.target(caller) else { return };
        // At times the last message is posted once more.
        let again = c.chance(1, 6).then(|| self.last_msg.clone()).flatten();
        let n = self.fresh_val();
        let panics = if matches!(self.pid, "P14" | "P08" | "P23") { 1 } else { 0 };
        let level = c.weighted(&[3, 3, 3, panics]);
        let text = *c.pick(&[
            "hello", "a | b", "[x] <y>", "é✓", "PANIC! | no", "two\nlines", "end\n", "trail  \t", "{} {0} {x:?} %s", "\\n \"q\" \0",
            "\u{1b}[31mred\u{1b}[0m", "\r\n", "", "   ", "UPPER lower",
        ]);
        let text = if c.chance(1, 12) { text.repeat(c.range(1, 60) as usize) } else { text.to_string() };
        let msg = if c.flag() { format!("«{n}» {text}") } else { format!("{text}«{n}»{text}") };
        let msg = again.unwrap_or(msg);
        self.last_msg = Some(msg.clone());
        let (lv, st) = match level {
            0 => ("DEBUG", None),
            1 => ("INFO", None),
            2 => ("WARN", Some(MStat::Warned(msg.clone()))),
            _ => ("PANIC!", Some(MStat::Panicked(msg.clone()))),
        };
        c.note(|| format!("{}.post({lv}, {msg:?})", self.who(s)));
        c.label(&format!("post {lv}"));
        let admitted = match self.verbosity {
            LoggerVerbosity::All => true,
            LoggerVerbosity::NoDebug => level >= 1,
            LoggerVerbosity::OnlyIssues => level >= 2,
            LoggerVerbosity::OnlyPanics => level >= 3,
        };
        let node = self.node(s);
        let rid = self.m(s).rid;
        let how = c.below(3);
        if let Some(st) = st {
            self.alive.get_mut(&s).unwrap().status = if how == 2 { MStat::Unknown } else { st };
        }
        let base = self.base();
        self.lib(&["P14"], "post", || {
            let log = match level {
                0 => Log::Debug(&msg),
                1 => Log::Info(&msg),
                2 => Log::Warn(&msg),
                _ => Log::Panic(&msg),
            };
            let says = (log.get_lv(), log.get_msg().to_string(), log.is_debug(), log.is_problematic(), log.is_panic());
            if says != (lv.to_string(), msg.clone(), level == 0, level >= 2, level == 3) {
                self.soft(&["P14"], || format!("the {lv} log with the message {msg:?} says of itself {says:?}"));
            }
            match how {
                0 => node.post(log),
                1 => match level {
                    0 => node_tree::debug!(node, "{}", msg),
                    1 => node_tree::info!(node, "{}", msg),
                    2 => node_tree::warn!(node, "{}", msg),
                    _ => node_tree::error!(node, "{}", msg),
                },
                _ => base.post(rid, log),
            }
        });
        if how != 2 {
            // The status shows at once.
            let got = node.status();
            let ok = match (&got, &self.m(s).status) {
                (node_tree::structs::node_base::NodeStatus::JustWarned(a), MStat::Warned(b)) => a == b,
                (node_tree::structs::node_base::NodeStatus::JustPanicked(a), MStat::Panicked(b)) => a == b,
                _ => level < 2,
            };
            if !ok {
                self.soft(&["P14"], || format!("after posting {msg:?} ({lv}) the status of {} is {got:?}", self.who(s)));
            }
        }
        if admitted {
            let crash = (level == 3).then(|| {
                let vague = self.alive.values().any(|m| matches!(m.status, MStat::Unknown));
                let draw = if vague || self.any_locked() { None } else { Some(self.draw_model(s, 6, 6)) };
                (self.header.clone().unwrap_or_default(), self.footer.clone().unwrap_or_default(), draw)
            });
            self.entries.push(Entry { level: lv, system: self.system(s), msg: Some(msg), crash });
        }
        if level == 3 {
            self.set_status(TStat::Terminated);
        }
        // A post changes nothing else.
        self.check_log();
    }

    /// Compares what was added to the log with what was posted.
    pub fn check_log(&mut self) {
        if self.tree.is_none() {
            return;
        }
        let log = self.base().get_log().to_string();
        if log.len() < self.log_pos || !log.is_char_boundary(self.log_pos) {
            self.fail(&["P14"], "the log got shorter");
        }
        let new = &log[self.log_pos..];
        let mut want = std::mem::take(&mut self.entries).into_iter();
        let now = std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap().as_secs() as i64;
        for (time, system, level, body) in parse_log(new) {
            // The clock may be set while this runs, but hardly by ten minutes (zones differ by more).
            if (now - time).abs() > 600 {
                self.fail(&["P14"], format!("an entry of the log has a time that is {} s away from the present UTC time", time - now));
            }
            match level.as_str() {
                "DEBUG" | "INFO" | "WARN" | "PANIC!" => (),
                l => self.fail(&["P14"], format!("unknown level {l:?} in the log: {new:?}")),
            }
            let admitted = match self.verbosity {
                LoggerVerbosity::All => true,
                LoggerVerbosity::NoDebug => level != "DEBUG",
                LoggerVerbosity::OnlyIssues => level == "WARN" || level == "PANIC!",
                LoggerVerbosity::OnlyPanics => level == "PANIC!",
            };
            if !admitted {
                self.fail(&["P14"], format!("the log has a {level} entry at verbosity {:?}: {body:?}", self.verbosity));
            }
            // The library posts messages of its own when nodes are added and removed.
            if !body.contains('«') && level != "PANIC!" {
                continue;
            }
            let Some(e) = want.next() else {
                self.fail(&["P14"], format!("the log has an entry that nobody posted (now): {level} {body:?}"));
            };
            let rest = match &e.msg {
                Some(m) => body.strip_prefix(m.as_str()).and_then(|r| r.strip_prefix('\n')),
                None => Some(body.split_once('\n').map_or("", |(_, r)| r)),
            };
            let rest = match rest {
                Some(r) if e.level == level && e.system == system => r.to_string(),
                _ => self.fail(&["P14"], format!("the log has the entry {system:?} {level} {body:?}, expected {:?} {} {:?}", e.system, e.level, e.msg)),
            };
            let msg = e.msg.clone().unwrap_or(body.clone());
            if let Some((header, footer, draw)) = e.crash {
                if !rest.contains(&header) || !rest.contains(&footer) {
                    self.fail(&["P14"], format!("the crash report lacks the header {header:?} or the footer {footer:?}: {rest:?}"));
                }
                if let Some(d) = draw {
                    if !rest.contains(&d) {
                        self.fail(&["P23"], format!("the crash report does not contain\n{d}\nbut\n{rest}"));
                    }
                }
                let Some(report) = rest.find("[REPORT START]") else {
                    self.fail(&["P14"], format!("there is no crash report after the panic {msg:?}"));
                };
                let after = rest.rfind("[REPORT END]").unwrap_or(report);
                for (part, now) in [(&rest[..report], &header), (&rest[after..], &footer)] {
                    if let Some(old) = CRASH_TEXTS.iter().find(|t| !t.trim().is_empty() && part.contains(*t) && !now.contains(*t)) {
                        let set = if std::ptr::eq(now, &header) { self.header.is_some() } else { self.footer.is_some() };
                        if set {
                            self.fail(&["P14"], format!("the crash report has {old:?}, where {now:?} was set: {rest:?}"));
                        }
                    }
                }
                if rest.find(&header).is_none_or(|i| i > report) || rest.rfind(&footer).is_none_or(|i| i < report) {
                    self.fail(&["P14"], format!("the header {header:?} or the footer {footer:?} is not around the report: {rest:?}"));
                }
            } else if e.level != "PANIC!" && !rest.is_empty() {
                self.fail(&["P14"], format!("after the entry {msg:?} the log has {rest:?}"));
            }
        }
        if let Some(e) = want.next() {
            self.fail(&["P14"], format!("the log lacks the {} entry {:?} of {:?}", e.level, e.msg, e.system));
        }
        if let Some(printed) = self.printed {
            let printed = printed.since(&mut self.print_pos);
            // A use of a removed node announces the panic's trace, which is not logged.
            let printed = plain_text(&String::from_utf8_lossy(&printed)).replace("[RUST TRACE]", "");
            let logged = plain_text(new).replace("[RUST TRACE]", "");
            if printed != logged {
                let same = printed.chars().zip(logged.chars()).take_while(|(a, b)| a == b).map(|(a, _)| a.len_utf8()).sum::<usize>();
                let tail = |s: &str| s[same..].chars().take(200).collect::<String>();
                self.fail(&["P14"], format!("what was printed and what was logged part at {:?} and {:?}", tail(&printed), tail(&logged)));
            }
        }
        self.log_pos = log.len();
    }

    fn op_getters(&mut self) {
        let c = self.c();
        let n = c.range(0, 5);
        let mut rids: Vec<RID> = vec![];
        for _ in 0..n {
            let r = match c.below(4) {
                0 => 77_777,
                1 if !self.dead.is_empty() => c.pick(&self.dead).1,
                _ => match self.any_node() {
                    Some(s) => self.m(s).rid,
                    None => 1,
                },
            };
            rids.push(r);
        }
        c.note(|| format!("get_nodes({rids:?})"));
        let want: Vec<Option<u64>> = rids.iter().map(|r| self.alive.iter().find(|(_, m)| m.rid == *r).map(|(s, _)| *s)).collect();
        let only: Vec<u64> = want.iter().flatten().copied().collect();
        let ser = |n: &dyn Node| see(n).map(|s| s.serial).unwrap_or(u64::MAX);
        let base = self.base();
        let t: &[&str] = &["P03", "P01"];
        let a: Vec<Option<u64>> = self.lib(t, "get_nodes", || base.get_nodes(&rids).into_iter().map(|n| n.map(ser)).collect());
        let b: Vec<u64> = self.lib(t, "get_all_valid_nodes", || base.get_all_valid_nodes(&rids).into_iter().map(ser).collect());
        if a != want || b != only {
            self.fail(t, format!("get_nodes and get_all_valid_nodes of {rids:?} give {a:?} and {b:?}, expected {want:?}"));
        }
        for (r, w) in rids.iter().zip(&want) {
            let x = base.get_node(*r).map(ser);
            let y = base.get_node_mut(*r).map(|n| ser(n));
            let z = base.get_node_raw(*r).map(|n| ser(unsafe { &*n }));
            let v = base.get_node_mut_raw(*r).map(|n| ser(unsafe { &*n }));
            if x != *w || y != *w || z != *w || v != *w {
                self.fail(t, format!("get_node, get_node_mut, get_node_raw and get_node_mut_raw of {r} give {x:?}, {y:?}, {z:?} and {v:?}, expected {w:?}"));
            }
        }
        let dup = rids.iter().collect::<BTreeSet<_>>().len() != rids.len();
        let a = catches(|| base.get_nodes_mut(&rids).into_iter().map(|n| n.map(|n| ser(n))).collect::<Vec<_>>());
        let b = catches(|| base.get_all_valid_nodes_mut(&rids).into_iter().map(|n| ser(n)).collect::<Vec<_>>());
        if dup {
            if a.is_ok() || b.is_ok() {
                self.fail(t, format!("get_nodes_mut gives two mutable references to a node: {rids:?}"));
            }
        } else if a != Ok(want.clone()) || b != Ok(only) {
            self.fail(t, format!("get_nodes_mut and get_all_valid_nodes_mut of {rids:?} give {a:?} and {b:?}, expected {want:?}"));
        }
    }

    fn op_deref_dead(&mut self) {
        let c = self.c();
        let dead: Vec<usize> = (0..self.held.len()).filter(|i| !self.alive.contains_key(&self.held[*i].target)).collect();
        if dead.is_empty() {
            return;
        }
        let i = *c.pick(&dead);
        let owner = self.held[i].owner;
        c.label("use of a dead pointer");
        if !self.alive.contains_key(&owner) {
            c.label("use of a dead pointer, its owner gone");
        }
        let how = c.below(4);
        c.note(|| format!("use the dead pointer {i} (of {}) to #{}", self.who(owner), self.held[i].target));
        macro_rules! typed {
            ($tp:expr) => {
                match how {
                    0 => catches(|| $tp.get().rid()),
                    1 => catches(|| $tp.get_mut().rid()),
                    2 => catches(|| $tp.rid()),
                    _ => catches(|| $tp.clone().to_dyn().rid()),
                }
            };
        }
        let posted = self.base().get_log().len();
        let r = match &mut self.held[i].ptr {
            HeldPtr::Dyn(tp) => match how {
                0 => catches(|| tp.get().rid()),
                1 => catches(|| tp.get_mut().rid()),
                2 => catches(|| tp.rid()),
                _ => catches(|| tp.children().len() as u64),
            },
            HeldPtr::T0(tp) => typed!(tp),
            HeldPtr::T1(tp) => typed!(tp),
            HeldPtr::T2(tp) => typed!(tp),
            HeldPtr::T3(tp) => typed!(tp),
            HeldPtr::T4(tp) => typed!(tp),
        };
        if let Ok(v) = r {
            self.fail(&["P03"], format!("using a pointer to a removed node gives {v} instead of panicking"));
        }
        let posted = self.base().get_log().get(posted..).unwrap_or("").to_string();
        if self.alive.contains_key(&owner) {
            let system = self.system(owner);
            if !posted.contains(&format!(" | {system} | PANIC! | ")) {
                self.fail(&["P03"], format!("using a pointer of {} to a removed node posts no panic for it, but: {posted:?}", self.who(owner)));
            }
            self.entries.push(Entry { level: "PANIC!", system, msg: None, crash: None });
            self.alive.get_mut(&owner).unwrap().status = MStat::Unknown;
            self.set_status(TStat::Terminated);
        } else if !posted.is_empty() {
            self.fail(&["P03"], format!("using a pointer of a removed node to a removed node posts {posted:?}"));
        }
    }

    /// Takes a result which a node or a pointer made for what it does not hold: that must panic, on behalf of the node that
    /// asked.
    fn op_blame(&mut self, caller: Option<u64>) {
        let c = self.c();
        if self.any_locked() {
            return;
        }
        fn refuse<T, E: std::fmt::Debug>(r: TreeResult<T, E>) -> Result<(), String> {
            let r = r.map(|_| ());
            catches(|| if r.is_ok() { _ = r.unwrap_err() } else { r.unwrap() })
        }
        let posted = self.base().get_log().len();
        let (r, owner) = if !self.held.is_empty() && c.flag() {
            let i = c.below(self.held.len());
            let (how, class) = (c.below(8), c.below(CLASSES as usize) as u8);
            let (owner, target) = (self.held[i].owner, self.held[i].target);
            c.label("refused result of a pointer");
            c.note(|| format!("result {how}, class {class}, of the pointer {i} of {} to {}", self.who(owner), self.who(target)));
            macro_rules! typed {
                ($tp:expr) => {
                    match how % 4 {
                        0 => refuse($tp.try_get()),
                        1 => refuse($tp.try_get_mut()),
                        2 => refuse($tp.clone().try_to_dyn()),
                        _ => match $tp.clone().try_to_dyn().to_option() {
                            Some(d) => with_class!(class, T => refuse(d.to::<T>())),
                            None => refuse($tp.try_get()),
                        },
                    }
                };
            }
            let r = match &mut self.held[i].ptr {
                HeldPtr::Dyn(tp) => match how {
                    0 => refuse(tp.try_get()),
                    1 => refuse(tp.try_get_mut()),
                    2 | 3 => with_class!(class, T => refuse(tp.to::<T>())),
                    4 => refuse(tp.cast::<dyn Alpha>()),
                    5 => refuse(tp.cast::<dyn Beta>()),
                    6 => refuse(tp.cast_mut::<dyn Gamma>()),
                    _ => refuse(tp.cast_mut::<dyn Alpha>()),
                },
                HeldPtr::T0(tp) => typed!(tp),
                HeldPtr::T1(tp) => typed!(tp),
                HeldPtr::T2(tp) => typed!(tp),
                HeldPtr::T3(tp) => typed!(tp),
                HeldPtr::T4(tp) => typed!(tp),
            };
            (r, owner)
        } else {
            let Some(s) = self.target(caller) else { return };
            let (how, class) = (c.below(8), c.below(CLASSES as usize) as u8);
            let kids = self.m(s).kids.len();
            let idx = c.below(kids + 2);
            let path = match c.below(3) {
                0 => "/none/at/all".to_string(),
                1 => "..".to_string(),
                _ => self.any_node().map(|x| format!("/{}", self.path_names(x).join("/"))).unwrap_or_default(),
            };
            let name = match self.singles.keys().next() {
                Some(k) if c.flag() => k.clone(),
                _ => "none".to_string(),
            };
            c.label("refused result of a node");
            c.note(|| format!("result {how}, class {class}, child {idx}, path {path:?}, name {name:?}, of {}", self.who(s)));
            let node = self.node(s);
            let r = with_class!(class, T => match how {
                0 => refuse(node.get_child::<T>(idx)),
                1 => refuse(node.get_child_dyn(idx)),
                2 => refuse(node.parent::<T>()),
                3 => refuse(node.parent_dyn()),
                4 => refuse(node.owner::<T>()),
                5 => refuse(node.get_node::<T>(NodePath::from_str(&path))),
                6 => refuse(node.get_node_dyn(NodePath::from_str(&path))),
                _ => refuse(node.get_node::<T>(name.as_str())),
            });
            (r, s)
        };
        let tags: &[&str] = &["P03", "P14", "P22"];
        if r.is_ok() {
            self.fail(tags, "a result taken for what it does not hold does not panic");
        }
        let posted = self.base().get_log().get(posted..).unwrap_or("").to_string();
        if self.alive.contains_key(&owner) {
            let system = self.system(owner);
            if !posted.contains(&format!(" | {system} | PANIC! | ")) {
                self.fail(tags, format!("a result of {} taken for what it does not hold posts no panic for it, but: {posted:?}", self.who(owner)));
            }
            self.entries.push(Entry { level: "PANIC!", system, msg: None, crash: None });
            self.alive.get_mut(&owner).unwrap().status = MStat::Unknown;
            self.set_status(TStat::Terminated);
        } else if !posted.is_empty() {
            self.fail(tags, format!("a result made by a pointer of a removed node posts {posted:?}"));
        }
    }

    fn op_cast(&mut self, caller: Option<u64>) {
        let Some(s) = self.target(caller) else { return };
        let c = self.c();
        c.label("cast");
        let tp: TpDyn<'static> = self.node(s).this_dyn();
        let v = c.below(1000) as i64;
        let class = self.m(s).class;
        c.note(|| format!("cast {} and set its note to {v}", self.who(s)));
        let mut set = false;
        let mut tp2 = tp;
        macro_rules! t {
            ($t:ident, $set:ident, $ext:ident) => {{
                let r = self.lib(&["P22"], "cast_mut", || tp2.cast_mut::<dyn $t>().to_result().map(|x| x.$set(v)));
                let want = if $ext(class) { Ok(()) } else { Err(TPError::DynCastFailed) };
                if r != want {
                    self.fail(&["P22"], format!("cast_mut of {} (class {}) to {} gives {r:?}", self.who(s), CLASS_NAMES[class as usize], stringify!($t)));
                }
                set |= r.is_ok();
            }};
        }
        match c.below(3) {
            0 => t!(Alpha, set_alpha, extends_alpha),
            1 => t!(Beta, set_beta, extends_beta),
            _ => t!(Gamma, set_gamma, extends_gamma),
        }
        if set {
            let now = see(self.node(s)).unwrap();
            if now.note != Some(v) {
                self.fail(&["P22"], format!("the trait object acts on another node than {}", self.who(s)));
            }
            self.alive.get_mut(&s).unwrap().note = now.note;
        }
        if self.held.len() < 12 {
            self.held.push(Held { ptr: HeldPtr::Dyn(tp), owner: s, target: s });
        }
    }

    /// Makes a pointer in one of the many ways, and keeps it.
    fn op_hold(&mut self, caller: Option<u64>) {
        let c = self.c();
        let Some(s) = self.target(caller) else { return };
        let m = self.m(s).clone();
        if self.any_locked() {
            return;
        }
        let node = self.node(s);
        let how = c.below(7);
        let class = c.below(CLASSES as usize) as u8;
        let t: &[&str] = &["P03", "P01"];
        // Where it must lead.
        let (target, way): (Option<u64>, &str) = match how {
            0 => (Some(s), "this"),
            1 => (m.parent, "parent"),
            2 => (Some(m.owner), "owner"),
            3 => (if m.kids.is_empty() { None } else { Some(m.kids[c.below(m.kids.len())]) }, "child"),
            4 => (self.any_node(), "path"),
            5 => (self.singles.values().next().copied(), "name"),
            _ => (if m.kids.is_empty() { None } else { Some(m.kids[c.below(m.kids.len())]) }, "children"),
        };
        let dynamic = c.flag() || how == 6;
        c.note(|| format!("pointer from {} by {way} to {:?}{}", self.who(s), target.map(|x| self.who(x)), if dynamic { "" } else { CLASS_NAMES[class as usize] }));
        let idx = target.and_then(|x| m.kids.iter().position(|k| *k == x)).unwrap_or(m.kids.len());
        let path = target.map(|x| format!("/{}", self.path_names(x).join("/"))).unwrap_or("/none".into());
        let name = target.and_then(|x| self.singles.iter().find(|y| *y.1 == x)).map(|x| x.0.clone()).unwrap_or("none".into());
        if dynamic {
            let r: Result<TpDyn<'static>, String> = self.lib(t, way, || match how {
                0 => Ok(node.this_dyn()),
                1 => node.parent_dyn().to_result().map_err(|e| format!("{e:?}")),
                2 => Ok(node.owner_dyn()),
                3 => node.get_child_dyn(idx).to_result().map_err(|e| format!("{e:?}")),
                4 => node.get_node_dyn(NodePath::from_str(&path)).to_result().map_err(|e| format!("{e:?}")),
                5 => node.get_node_dyn(name.as_str()).to_result().map_err(|e| format!("{e:?}")),
                _ => node.children().get(idx).copied().ok_or("none".to_string()),
            });
            match (r, target) {
                (Ok(mut tp), Some(x)) => {
                    let e = match tp.try_get_mut().to_result() {
                        Ok(n) => see(n).map(|s| s.serial),
                        Err(_) => None,
                    };
                    if e != Some(x) {
                        let tags: &[&str] = match how { 4 => &["P03", "P04"], 5 => &["P03", "P05"], 0 => &["P03"], _ => t };
                        self.fail(tags, format!("the pointer from {} by {way} leads to {e:?}, expected {}", self.who(s), self.who(x)));
                    }
                    self.held.push(Held { ptr: HeldPtr::Dyn(tp), owner: s, target: x });
                }
                (Err(_), None) => (),
                (r, x) => {
                    let tags: &[&str] = match how { 4 => &["P04"], 5 => &["P05"], _ => t };
                    self.fail(tags, format!("the pointer from {} by {way} is {r:?}, expected {x:?}", self.who(s)))
                }
            }
        } else {
            let w: &World = self;
            macro_rules! typed {
                ($T:ident, $V:ident) => {{
                    let r = catches(|| match how {
                        0 => Ok(node.this::<$T>()),
                        1 => node.parent::<$T>().to_result(),
                        2 => node.owner::<$T>().to_result(),
                        3 => node.get_child::<$T>(idx).to_result(),
                        4 => node.get_node::<$T>(NodePath::from_str(&path)).to_result(),
                        _ => node.get_node::<$T>(name.as_str()).to_result(),
                    });
                    match r {
                        // Only `this` panics, when it is given the wrong type.
                        Err(m) => {
                            if how != 0 || w.m(s).class == class {
                                w.fail(t, format!("the typed pointer by {way} panicked: {m}"));
                            }
                            None
                        }
                        Ok(Ok(tp)) => Some(Ok(HeldPtr::$V(tp))),
                        Ok(Err(e)) => Some(Err(e)),
                    }
                }};
            }
            let r: Option<Result<HeldPtr, NodeError>> = match class {
                0 => typed!(N0, T0),
                1 => typed!(N1, T1),
                2 => typed!(N2, T2),
                3 => typed!(N3, T3),
                _ => typed!(N4, T4),
            };
            let Some(r) = r else {
                // `this` with the wrong type posts a panic for the node.
                self.entries.push(Entry { level: "PANIC!", system: self.system(s), msg: None, crash: None });
                self.alive.get_mut(&s).unwrap().status = MStat::Unknown;
                self.set_status(TStat::Terminated);
                return;
            };
            match (r, target) {
                (Ok(ptr), Some(x)) if self.m(x).class == class => {
                    self.held.push(Held { ptr, owner: s, target: x });
                    let i = self.held.len() - 1;
                    self.check_held(i);
                }
                (Err(NodeError::TPError(TPError::WrongType)), Some(x)) if self.m(x).class != class => (),
                (Err(e), None) if e != NodeError::TPError(TPError::WrongType) => (),
                (r, x) => {
                    let tags: &[&str] = match how { 4 => &["P03", "P04"], 5 => &["P03", "P05"], _ => &["P03"] };
                    self.fail(tags, format!("the pointer of class {} from {} by {way} is {:?}, expected to lead to {:?}", CLASS_NAMES[class as usize], self.who(s), r.err(), x.map(|x| (self.who(x), self.m(x).class))))
                }
            }
        }
        // At times it is a pointer made of that one which is kept.
        if c.chance(1, 4) && self.held.last().is_some_and(|h| h.owner == s && Some(h.target) == target) {
            let mut h = self.held.pop().unwrap();
            c.label("converted pointer");
            h.ptr = match h.ptr {
                HeldPtr::Dyn(tp) => match target.map(|x| self.m(x).class) {
                    Some(0) => tp.to().to_option().map(HeldPtr::T0),
                    Some(1) => tp.to().to_option().map(HeldPtr::T1),
                    Some(2) => tp.to().to_option().map(HeldPtr::T2),
                    Some(3) => tp.to().to_option().map(HeldPtr::T3),
                    _ => tp.to().to_option().map(HeldPtr::T4),
                },
                HeldPtr::T0(tp) => catches(|| tp.to_dyn()).ok().map(HeldPtr::Dyn),
                HeldPtr::T1(tp) => catches(|| tp.to_dyn()).ok().map(HeldPtr::Dyn),
                HeldPtr::T2(tp) => tp.try_to_dyn().to_option().map(HeldPtr::Dyn),
                HeldPtr::T3(tp) => tp.try_to_dyn().to_option().map(HeldPtr::Dyn),
                HeldPtr::T4(tp) => tp.try_to_dyn().to_option().map(HeldPtr::Dyn),
            }
            .unwrap_or_else(|| self.fail(&["P03"], format!("the pointer to {} cannot be converted", target.map(|x| self.who(x)).unwrap_or_default())));
            self.held.push(h);
            let i = self.held.len() - 1;
            self.check_held(i);
        }
        if self.held.len() > 12 {
            self.held.remove(0);
        }
    }

    /// Looks a random path up and walks it in the model.
    fn op_path(&mut self, caller: Option<u64>) {
        if self.any_locked() {
            return;
        }
        let c = self.c();
        let Some(from) = self.target(caller).or_else(|| self.any_node()) else { return };
        let abs = c.chance(1, 3);
        let mut text = String::new();
        let mut at = Some(from);
        if abs {
            text.push('/');
            at = None;
            if let Some(r) = self.root {
                if !c.chance(1, 6) {
                    text += &self.m(r).name.clone();
                    at = Some(r);
                    if c.flag() {
                        text.push('/');
                    }
                } else {
                    text += c.pick(&["", "A", ".", "..", "nobody", "//"]);
                }
            }
        }
        // A walk that mostly follows the tree.
        let n = c.range(0, 7);
        for i in 0..n {
            if (i > 0 || abs) && !text.ends_with('/') || c.chance(1, 12) && (abs || !text.is_empty()) {
                text.push('/');
            }
            let kids = at.map(|a| self.m(a).kids.clone()).unwrap_or_default();
            match c.weighted(&[6, 3, 2, 1, 1]) {
                0 if !kids.is_empty() => {
                    let k = *c.pick(&kids);
                    text += &self.m(k).name.clone();
                    at = Some(k);
                }
                1 => {
                    text += "..";
                    at = at.and_then(|a| self.m(a).parent);
                }
                2 => text += ".",
                3 => {
                    let x = self.any_node().unwrap();
                    let name = self.m(x).name.clone();
                    text += &if c.flag() { near(c, &name) } else { name };
                }
                _ => {
                    text += c.pick(&["nobody", "", "...", " ", "A", ".. ", "a"]);
                }
            }
        }
        if c.chance(1, 6) && (abs || !text.is_empty()) {
            text.push('/');
        }
        if c.chance(1, 15_000) {
            // A very long walk, which comes back to where it is.
            c.label("long path");
            let kid = at.filter(|_| !text.is_empty()).and_then(|a| self.m(a).kids.first().copied()).map(|k| self.m(k).name.clone());
            let step = match kid {
                Some(k) if c.flag() => format!("/{k}/.."),
                _ => if text.is_empty() { "./" } else { "/." }.to_string(),
            };
            text += &step.repeat(c.range(1, 60) * 10_000);
        }
        self.check_path(from, &text);
        // Every node's absolute path leads back to it.
        let x = self.any_node().unwrap();
        let node = self.node(x);
        let p = self.lib(&["P04"], "get_absolute_path", || node.get_absolute_path());
        if !p.is_absolute() {
            self.fail(&["P04"], format!("get_absolute_path of {} is relative", self.who(x)));
        }
        let rid = self.m(x).rid;
        for y in [from, x] {
            let other = self.node(y);
            let a = self.lib(&["P04"], "get_node_dyn", || other.get_node_dyn(p.clone()).to_result().map(|t| t.rid()));
            let b = self.base().get_node_rid(p.clone(), None);
            if a != Ok(rid) || b != Some(rid) {
                self.fail(&["P04"], format!("the absolute path {p:?} of {} gives {a:?} (from {}) and {b:?}", self.who(x), self.who(y)));
            }
        }
        let s = self.lib(&["P04"], "to_string", || p.clone().to_string());
        if NodePath::from_str(&s) != p || s != format!("/{}", self.path_names(x).join("/")) {
            self.fail(&["P04"], format!("the absolute path of {} is {s:?}", self.who(x)));
        }
    }

    pub fn check_path(&mut self, from: u64, text: &str) {
        let c = self.c();
        let abs = text.starts_with('/');
        let mut segs: Vec<&str> = text.split('/').filter(|s| !s.is_empty()).collect();
        let mut at = Some(from);
        if abs {
            at = match self.root {
                Some(r) if !segs.is_empty() && segs[0] == self.m(r).name => Some(r),
                _ => None,
            };
            if !segs.is_empty() {
                segs.remove(0);
            }
        }
        for s in &segs {
            at = match (at, *s) {
                (None, _) => None,
                (at, ".") => at,
                (Some(a), "..") => self.m(a).parent,
                (Some(a), n) => self.m(a).kids.iter().copied().find(|k| self.m(*k).name == n),
            };
        }
        c.note(|| format!("from {} path {text:?} -> {:?}", self.who(from), at.map(|x| self.who(x))));
        c.label(if at.is_some() { "path leads somewhere" } else { "path leads nowhere" });
        if abs {
            c.label("absolute path");
        }
        let want = at.map(|x| self.m(x).rid);
        let rid = self.m(from).rid;
        let t: &[&str] = &["P04"];
        let path = self.lib(t, "from_str", || NodePath::from_str(text));
        if path.is_absolute() != abs {
            self.fail(t, format!("is_absolute() of {text:?} is wrong"));
        }
        let a = self.lib(t, "get_node_rid", || self.base().get_node_rid(path.clone(), Some(rid)));
        let node = self.node(from);
        let b = self.lib(t, "get_node_dyn", || node.get_node_dyn(path.clone()).to_result().map(|t| t.rid()));
        if a != want || b.as_ref().ok() != want.as_ref() {
            self.fail(t, format!("from {} the path {text:?} gives {a:?} and {b:?}, expected {:?}", self.who(from), at.map(|x| self.who(x))));
        }
        if let Err(e) = &b {
            if !matches!(e, NodeError::InvalidRootPath(_) | NodeError::InvalidPath(_)) {
                self.fail(t, format!("the path {text:?} leads nowhere, and the error is {e:?}"));
            }
        }
        if !abs {
            let r = self.lib(t, "get_node_raw", || node.get_node_raw(path.clone()));
            if r != want {
                self.fail(t, format!("from {} get_node_raw({text:?}) gives {r:?}, expected {want:?}", self.who(from)));
            }
        }
        let none = self.base().get_node_rid(path.clone(), None);
        if none != if abs { want } else { None } {
            self.fail(t, format!("without a caller the path {text:?} gives {none:?}"));
        }
        let s = self.lib(t, "to_string", || path.clone().to_string());
        if NodePath::from_str(&s) != path {
            self.fail(t, format!("the path of {text:?} is written as {s:?}, which is another path"));
        }
        // The same path put together from its segments, and taken apart again.
        if segs.len() > 1000 {
            return;
        }
        let mut built = if abs { NodePath::new_abs() } else { NodePath::new() };
        for s in text.split('/') {
            built.add_node(s);
        }
        let hash = |p: &NodePath| {
            let mut h = DefaultHasher::new();
            p.hash(&mut h);
            h.finish()
        };
        if built != path || hash(&built) != hash(&path) || built.is_absolute() != abs {
            self.fail(t, format!("the path {text:?} put together by add_node is {built:?}, the parsed one is {path:?}"));
        }
        let mut rest = path.clone();
        for s in text.split('/').filter(|s| !s.is_empty()) {
            let got = rest.pop_front_as_string();
            if got.as_deref() != Some(s) {
                self.fail(t, format!("pop_front_as_string of {text:?} gives {got:?}, expected {s:?}"));
            }
        }
        if let Some(got) = rest.pop_front_as_string() {
            self.fail(t, format!("pop_front_as_string of {text:?} still gives {got:?} in the end"));
        }
        if rest.is_absolute() != abs {
            self.fail(t, format!("taking the segments off {text:?} changes whether it is absolute"));
        }
    }

    fn op_draw(&mut self, caller: Option<u64>) {
        if self.any_locked() {
            return;
        }
        let Some(s) = self.target(caller) else { return };
        let c = self.c();
        let (mut up, mut down) = (c.below(6), c.below(6));
        // As many layers as there are.
        match c.draw(16) {
            13 => up = usize::MAX - up,
            14 => down = usize::MAX - down,
            15 => (up, down) = (usize::MAX, usize::MAX),
            _ => {}
        }
        let rid = self.m(s).rid;
        // Statuses which the model does not know are taken from the node.
        for x in self.alive.keys().copied().collect::<Vec<_>>() {
            if self.m(x).status == MStat::Unknown {
                let st = match self.node(x).status() {
                    node_tree::structs::node_base::NodeStatus::Normal => MStat::Normal,
                    node_tree::structs::node_base::NodeStatus::JustWarned(m) => MStat::Warned(m),
                    node_tree::structs::node_base::NodeStatus::JustPanicked(m) => MStat::Panicked(m),
                };
                self.alive.get_mut(&x).unwrap().status = st;
            }
        }
        c.note(|| format!("draw_tree({}, {up}, {down})", self.who(s)));
        c.label("draw");
        let got = self.lib(&["P23"], "draw_tree", || node_tree::utils::functions::draw_tree(self.base(), rid, up, down));
        let want = self.draw_model(s, up, down);
        if got != want {
            self.fail(&["P23"], format!("draw_tree({}, {up}, {down}) gives\n{got}\nexpected\n{want}", self.who(s)));
        }
    }

    /// The text which `draw_tree` must give.
    pub fn draw_model(&self, s: u64, up: usize, down: usize) -> String {
        let mut from = s;
        let mut above = 0;
        while above < up {
            match self.m(from).parent {
                Some(p) => from = p,
                None => break,
            }
            above += 1;
        }
        let mut warns = vec![];
        let mut panics = vec![];
        let mut lines = vec![self.draw_name(from, &mut warns, &mut panics)];
        self.draw_kids(from, "", down.saturating_add(above + 1), &mut lines, &mut warns, &mut panics);
        let section = |l: &[String], colour: u32| -> String {
            if l.is_empty() { "None".into() } else { l.iter().map(|w| format!("\x1b[{colour}m{w}\x1b[0m")).collect::<Vec<_>>().join("\n") }
        };
        format!(
            "[REPORT START]\n{}\n\n[Same-Frame Warnings]\n{}\n\n[Same-Frame Panics]\n{}\n\n[REPORT END]",
            lines.join("\n"), section(&warns, 33), section(&panics, 31))
    }

    fn draw_name(&self, s: u64, warns: &mut Vec<String>, panics: &mut Vec<String>) -> String {
        let m = self.m(s);
        match &m.status {
            MStat::Warned(w) => {
                warns.push(format!("{} - {w}", m.name));
                format!("\x1b[33m{}\x1b[0m", m.name)
            }
            MStat::Panicked(w) => {
                panics.push(format!("{} - {w}", m.name));
                format!("\x1b[31m{}\x1b[0m", m.name)
            }
            _ => m.name.clone(),
        }
    }

    fn draw_kids(&self, s: u64, prefix: &str, layers: usize, lines: &mut Vec<String>, warns: &mut Vec<String>, panics: &mut Vec<String>) {
        let kids = &self.m(s).kids;
        for (i, k) in kids.iter().enumerate() {
            let last = i + 1 == kids.len();
            let arm = if last { "└── " } else { "├── " };
            if layers == 0 {
                // Whether a hidden node's message is listed is left to the library: see `hidden`.
                let _ = self.hidden(*k, warns, panics);
                lines.push(format!("{prefix}{arm}..."));
                continue;
            }
            let name = self.draw_name(*k, warns, panics);
            lines.push(format!("{prefix}{arm}{name}"));
            self.draw_kids(*k, &format!("{prefix}{}", if last { "    " } else { "│   " }), layers - 1, lines, warns, panics);
        }
    }

    /// Nodes that show as `...` are still listed in the sections below the drawing.
    fn hidden(&self, s: u64, warns: &mut Vec<String>, panics: &mut Vec<String>) -> String {
        self.draw_name(s, warns, panics)
    }
}

/// Splits a log into its entries: (seconds since 1970, system, level, all that follows before the next entry).
pub fn parse_log(log: &str) -> Vec<(i64, String, String, String)> {
    let b = log.as_bytes();
    let is_head = |i: usize| -> bool {
        // <dd/mm/yyyy hh:mm:ss UTC> |
        let pat = b"<dd/dd/dddd dd:dd:dd UTC> | ";
        b.len() >= i + pat.len() && pat.iter().enumerate().all(|(k, p)| match p {
            b'd' => b[i + k].is_ascii_digit(),
            p => b[i + k] == *p,
        })
    };
    let heads: Vec<usize> = (0..b.len()).filter(|i| b[*i] == b'<' && is_head(*i)).collect();
    let mut out = vec![];
    if heads.first() != Some(&0) && !log.is_empty() {
        out.push((0, "?".into(), "?".into(), log[..heads.first().copied().unwrap_or(log.len())].to_string()));
    }
    for (n, h) in heads.iter().enumerate() {
        let end = heads.get(n + 1).copied().unwrap_or(log.len());
        let entry = &log[h + 28..end];
        let (system, rest) = entry.split_once(" | ").unwrap_or(("?", entry));
        let (level, body) = rest.split_once(" | ").unwrap_or(("?", rest));
        let num = |from: usize, len: usize| -> i64 { log[h + from..h + from + len].parse().unwrap() };
        let (d, m, y) = (num(1, 2), num(4, 2), num(7, 4));
        // Days since 1970, with years that begin in March.
        let (y, m) = if m > 2 { (y, m - 3) } else { (y - 1, m + 9) };
        let days = y * 365 + y / 4 - y / 100 + y / 400 + (m * 153 + 2) / 5 + d - 1 - 719_468;
        let time = days * 86_400 + num(12, 2) * 3600 + num(15, 2) * 60 + num(18, 2);
        out.push((time, system.into(), level.into(), body.into()));
    }
    out
}

// ---------------------------------------------------------------- whole histories

thread_local! {
    static PROFILE: std::cell::RefCell<Option<Profile>> = const { std::cell::RefCell::new(None) };
}

fn act(w: &mut World, s: u64) {
    let c = w.c();
    let p = PROFILE.with(|p| unsafe { &*p.as_ptr() }).as_ref().unwrap();
    if w.budget == 0 || w.stack.len() > 4 || !c.chance(p.hooks, 100) {
        return;
    }
    w.budget -= 1;
    c.label("hook acts");
    if w.pid == "P21" && c.chance(1, 60) {
        c.label("hook panics");
        c.note(|| format!("the hook of {} panics", w.who(s)));
        std::panic::panic_any(Boom);
    }
    if w.pid == "P07" && c.chance(1, 60) {
        std::thread::sleep(std::time::Duration::from_millis(1));
    }
    let before = w.dead.len();
    w.step(Some(s), p);
    if w.dead.len() > before && w.stack.iter().any(|l| matches!(l, Layer::Frame(_))) {
        c.nontrivial = true;
    }
    if p.inner_audit && c.chance(1, 4) {
        w.audit();
    }
}

pub fn check(c: &mut Ctx) {
    let pid = c.pid;
    history(c, profile(pid));
}

pub fn history(c: &mut Ctx, p: Profile) {
    let (size, steps, modes, log) = (p.size, p.steps, p.modes, p.log);
    PROFILE.with(|x| *x.borrow_mut() = Some(p));
    let p = PROFILE.with(|p| unsafe { &*p.as_ptr() }).as_ref().unwrap();
    let mut w = World::new(c);
    if w.pid == "P23" {
        w.verbosity = LoggerVerbosity::OnlyIssues;
    }
    w.acts = Some(act);
    w.budget = if c.thorough { 80 } else { 40 };
    let mut size = size;
    let mut steps = if c.thorough { steps * 3 } else { steps };
    // At times everything is much larger: what only shows beyond some size is rare, but not impossible.
    if c.chance(1, 500) {
        c.label("large history");
        w.big = true;
        w.budget = 200;
        size *= 5;
        steps *= 8;
    }
    if !w.big && c.chance(1, 4000) {
        c.label("huge history");
        w.huge = true;
    }
    // At times some operations are much likelier than usual, and others do not occur at all.
    if c.chance(1, 4) {
        c.label("unusual mixture");
        w.swarm = (0..OPS).map(|_| *c.pick(&[2, 0, 1, 8])).collect();
    }
    let n = if w.huge { HUGE } else if w.big { c.range(size / 2, size) } else { c.range(1, size) };
    let plain = !w.huge && c.chance(1, 8);
    let (scene, shape) = if plain {
        let s = w.gen_shape(1);
        (None, s)
    } else {
        let (s, m) = w.gen_scene(n);
        (Some(s), m)
    };
    let mut done = false;
    if catches_boom(|| {
        w.create(scene, shape);
        done = true;
        operations(c, &mut w, p, steps, modes, log);
    }) {
        if done {
            w.after_panic();
        }
        c.nontrivial = true;
        return;
    }
    w.check_log();
    w.finish();
    let labels: BTreeSet<String> = c.labels.keys().cloned().collect();
    let has = |l: &str| labels.contains(l);
    let frames = has("frame");
    c.nontrivial = match pid_kind(w.pid) {
        Kind::Names => has("taken name") || has("add"),
        Kind::Frames => frames && w.events > 3,
        Kind::Removal => !w.dead.is_empty(),
        Kind::Singles => has("register_as_singleton"),
        Kind::Posts => labels.iter().any(|l| l.starts_with("post")),
        Kind::Paths => has("path leads somewhere"),
        Kind::Draw => has("draw"),
        Kind::Any => has("add") || has("free") || has("remove_child"),
    };
    let _ = NodeIdentity::NodePath;
}

fn operations(c: &mut Ctx, w: &mut World, p: &Profile, steps: usize, modes: bool, log: bool) {
    if modes {
        for s in w.alive.keys().copied().collect::<Vec<_>>() {
            if c.chance(1, 3) {
                let m = *c.pick(&[ProcessMode::Inherit, ProcessMode::Always, ProcessMode::Pausable, ProcessMode::Inverse]);
                w.set_mode(s, m);
            }
        }
    }
    if log {
        w.check_log();
    }
    w.audit();
    w.audit_drops();
    let steps = if w.big { c.range(steps / 2, steps) } else { c.range(1, steps) };
    for _ in 0..steps {
        if w.alive.is_empty() && w.status == TStat::Terminated {
            w.frame();
            break;
        }
        (w.adds, w.removes) = (0, 0);
        w.step(None, p);
        w.audit();
        w.audit_drops();
    }
    match c.below(4) {
        0 => {
            if let Some(r) = w.root {
                (w.adds, w.removes) = (0, 0);
                w.remove(r, TerminationReason::Freed, None);
                w.audit();
                w.audit_drops();
                w.frame();
            }
        }
        1 => {
            for _ in 0..3 {
                w.base().queue_termination();
                if let TStat::Proc(x) = w.status {
                    w.set_status(TStat::Queued(x));
                }
                w.frame();
                w.audit();
                w.audit_drops();
            }
        }
        _ => (),
    }
}

enum Kind {
    Names,
    Frames,
    Removal,
    Singles,
    Posts,
    Paths,
    Draw,
    Any,
}
fn pid_kind(pid: &str) -> Kind {
    match pid {
        "P02" => Kind::Names,
        "P07" | "P08" => Kind::Frames,
        "P03" | "P09" | "P22" => Kind::Removal,
        "P05" => Kind::Singles,
        "P14" => Kind::Posts,
        "P04" => Kind::Paths,
        "P23" => Kind::Draw,
        _ => Kind::Any,
    }
}
