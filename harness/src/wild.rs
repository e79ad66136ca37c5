//! P21: histories without a model. Anything that the safe interface offers may be done by any hook at
//! any time, also what no documentation says anything about; only what it does to memory is judged.

use crate::engine::*;
use crate::nodes::*;
use crate::with_class;
use crate::world::*;
use node_tree::prelude::*;

fn text(c: &mut Ctx) -> String {
    c.pick(&["A", "B", "A1", "", ".", "..", "a/b", "/", "N0", "é", "A", "B"]).to_string()
}

fn path(c: &mut Ctx) -> String {
    let n = c.range(1, 4);
    let mut p = if c.chance(1, 3) { "/".to_string() } else { String::new() };
    for i in 0..n {
        if i > 0 {
            p.push('/');
        }
        p += &text(c);
    }
    p
}

fn scene(c: &mut Ctx, n: usize) -> NodeScene {
    let class = c.below(CLASSES as usize) as u8;
    let name = text(c);
    let mut s = NodeScene::new_dyn(make(class, Some(&name), 1, 2));
    let mut left = n;
    while left > 0 && c.flag() {
        let k = scene(c, left - 1);
        left -= 1;
        if c.flag() {
            s.append(k)
        } else {
            s.append_as_owner(k)
        }
    }
    s
}

impl World {
    fn wild_rid(&self) -> RID {
        let c = self.c();
        let last = self.next_val as u64;
        if c.chance(1, 8) { c.draw(last + 3) } else { last.saturating_sub(c.draw(10)) }
    }

    /// Does anything.
    fn wild_op(&mut self, caller: Option<RID>) {
        let c = self.c();
        c.step();
        let base = self.base();
        let mut rid = self.wild_rid();
        if let Some(r) = caller.filter(|_| c.flag()) {
            rid = r;
            if let Some(n) = base.get_node(r) {
                // Often something near the caller.
                match c.below(6) {
                    0 => rid = n.parent_dyn().to_option().map_or(r, |p| p.rid()),
                    1 => rid = n.children().first().map_or(r, |k| k.rid()),
                    2 => rid = n.children().last().map_or(r, |k| k.rid()),
                    _ => (),
                }
            }
        }
        let what = c.weighted(&[3, 6, 4, 6, 4, 2, 2, 2, 2, 3, 2, 1, 2, 2, 1, 1, 2, 2]);
        c.note(|| format!("{}{what} on {rid}", "  ".repeat(self.depth)));
        let Some(n) = base.get_node_mut(rid) else {
            if what == 0 && self.depth < 3 {
                self.tree().process();
            }
            return;
        };
        match what {
            0 => {
                if self.depth < 3 && (caller.is_none() || c.chance(1, 4)) {
                    c.label("frame");
                    self.tree().process();
                }
            }
            1 => {
                c.label("add");
                let class = c.below(CLASSES as usize) as u8;
                let name = text(c);
                self.next_val += 1;
                add_plain(n, class, Some(&name), 1, 2);
            }
            2 => {
                c.label("add scene");
                let mut s = scene(c, 4);
                if c.flag() {
                    s = s.clone();
                }
                self.next_val += len(&s) as i64;
                n.add_child(s);
            }
            3 => {
                c.label("free");
                if n.is_root() && !c.chance(1, 8) {
                    return;
                }
                n.free();
            }
            4 => {
                c.label("remove_child");
                let kids = n.children();
                let name = if kids.is_empty() { text(c) } else { c.pick(&kids).name().to_string() };
                n.remove_child(&name);
            }
            5 => {
                let name = text(c);
                n.set_name(&name);
            }
            6 => {
                let name = text(c);
                n.register_as_singleton(name);
            }
            7 => {
                let s = n.save_as_branch();
                if c.flag() {
                    let _ = s.structural_hash();
                    let _ = s.save_to_str().map(|t| NodeScene::load_from_str(&t).map(|s| self.pool.push((s, shape()))));
                } else {
                    self.pool.push((s, shape()));
                }
            }
            8 => {
                if let Some((s, _)) = self.pool.pop() {
                    let s2 = s.clone();
                    self.next_val += len(&s) as i64;
                    n.add_child(s);
                    if c.flag() {
                        self.pool.push((s2, shape()));
                    }
                }
            }
            9 => {
                let tp: TpDyn<'static> = n.this_dyn();
                self.held.push(Held { ptr: HeldPtr::Dyn(tp), owner: 0, target: 0 });
                let tp: TpDyn<'static> = n.owner_dyn();
                self.held.push(Held { ptr: HeldPtr::Dyn(tp), owner: 0, target: 0 });
            }
            10 => {
                let p = path(c);
                let _ = n.get_node_dyn(NodePath::from_str(&p)).to_result().map(|t| t.rid());
                let _ = n.get_node::<N1>(NodePath::from_str(&p)).to_result().map(|t| *t.val);
                let _ = n.get_node_raw(NodePath::from_str(&p));
                let _ = n.get_node_dyn(p.as_str()).to_result().map(|t| t.rid());
            }
            11 => {
                let log = c.below(9);
                match log {
                    0 => n.post(Log::Panic("no")),
                    1..=4 => n.post(Log::Warn("well")),
                    _ => n.post(Log::Info("so")),
                }
            }
            12 => drop(node_tree::utils::functions::draw_tree(self.base(), rid, c.below(4), c.below(4))),
            13 => {
                if !self.held.is_empty() {
                    let i = c.below(self.held.len());
                    let HeldPtr::Dyn(mut tp) = self.held[i].ptr else { return };
                    let how = c.below(8);
                    match how {
                        0 => drop(tp.try_get().to_result().map(|n| see(n))),
                        1 => drop(tp.try_get_mut().to_result().map(|n| see(n))),
                        2 => drop(see(tp.get())),
                        3 => drop(tp.to::<N0>().to_result().map(|mut t| *t.val += 1)),
                        4 => drop(tp.cast::<dyn Alpha>().to_result().map(|a| a.alpha())),
                        5 => drop(tp.cast_mut::<dyn Beta>().to_result().map(|b| b.set_beta(3))),
                        6 => tp.free(),
                        _ => drop((tp.is_null(), tp.is_valid(), tp.is::<N1>(), tp.is_of::<dyn Gamma>())),
                    }
                }
            }
            14 => {
                self.base().queue_termination();
                if c.chance(1, 5) {
                    self.base().terminate();
                }
            }
            15 => {
                if c.flag() {
                    self.base().pause()
                } else {
                    self.base().unpause()
                }
            }
            16 => {
                // A signal of this node, for which another one listens.
                let to = self.wild_rid();
                let (Some(from), Some(to)) = (n.this_dyn().to::<N0>().to_option(), self.base().get_node(to)) else { return };
                let to: TpDyn<'static> = to.this_dyn();
                let from: &N0 = unsafe { &*(from.get() as *const N0) };
                let key = c.draw(4);
                unsafe {
                    from.sig.connect(move |v| {
                        if let Some(w) = current() {
                            let rid = to.try_get().to_option().map(|n| n.rid());
                            if *v as u64 % 4 == key && w.depth < 4 {
                                w.wild_hook(rid);
                            }
                        }
                    })
                };
            }
            _ => {
                if let Some(from) = n.this_dyn().to::<N0>().to_option() {
                    c.label("emit");
                    let from: &N0 = unsafe { &*(from.get() as *const N0) };
                    if self.depth < 4 {
                        from.sig.emit(c.draw(8) as i64);
                    }
                }
            }
        }
    }

    pub fn wild_hook(&mut self, caller: Option<RID>) {
        let c = self.c();
        if self.depth > 5 {
            return;
        }
        self.depth += 1;
        while self.budget > 0 && c.chance(1, 3) {
            self.budget -= 1;
            c.label("hook acts");
            self.wild_op(caller);
            if c.chance(1, 50) {
                c.label("hook panics");
                c.note(|| "the hook panics".into());
                std::panic::panic_any(Boom);
            }
        }
        self.depth -= 1;
    }
}

fn len(s: &NodeScene) -> usize {
    1 + s.children().iter().map(len).sum::<usize>()
}

fn shape() -> MScene {
    MScene { class: 0, name: String::new(), val: 0, note: None, uniq: None, from_disk: false, owner: true, kids: vec![], origin: 0 }
}

pub fn check(c: &mut Ctx) {
    c.label("wild history");
    let mut w = World::new(c);
    w.numb = true;
    w.wild = true;
    w.verbosity = LoggerVerbosity::OnlyPanics;
    w.budget = if c.thorough { 80 } else { 30 };
    let n = c.range(1, 6);
    let s = scene(c, n);
    w.next_val = len(&s) as i64 - 1;
    CURRENT.with(|x| x.set(&mut *w));
    if catches_all(|| w.wild_create(s)).is_err() {
        return;
    }
    let steps = c.range(1, if c.thorough { 60 } else { 20 });
    for _ in 0..steps {
        w.depth = 0;
        let _ = catches_all(|| w.wild_op(None));
        if c.chance(1, 4) {
            w.look();
        }
    }
    w.look();
    c.nontrivial = true;
}
