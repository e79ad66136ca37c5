//! P27: nodes outside of a tree refuse what needs one, and nothing else.

use crate::engine::*;
use crate::ensure;
use crate::nodes::*;
use crate::with_class;
use node_tree::prelude::*;
use node_tree::structs::node_base::NodeStatus;
use std::mem::ManuallyDrop;

const OPS: usize = 37;

/// Does what needs a tree. Whether it is documented to panic on a stray node.
fn needy(n: &mut dyn Node, op: usize, c: &mut Ctx) {
    let path = *c.pick(&["A", ".", "..", "/", "/A", "", "A/B"]);
    let flag = c.flag();
    match op {
        0 => drop(n.this_dyn()),
        1 => drop(n.this::<N0>()),
        2 => drop(n.register_as_singleton("S".into())),
        3 => n.add_child(N1::new()),
        4 => n.add_child(NodeScene::new(N2::new())),
        5 => drop(n.remove_child("A")),
        6 => drop(n.get_child::<N0>(0).is_ok()),
        7 => drop(n.get_child_dyn(0).is_ok()),
        8 => drop(n.children()),
        9 => drop(n.num_children()),
        10 => drop(n.childless()),
        11 => drop(n.get_node::<N1>(NodePath::from_str(path)).is_ok()),
        12 => drop(n.get_node_dyn(NodePath::from_str(path)).is_ok()),
        13 => drop(n.get_node_dyn(path).is_ok()),
        14 => drop(n.get_node_dyn(path.to_string()).is_ok()),
        15 => drop(n.get_node_raw(NodePath::from_str(path))),
        16 => drop(n.top_down(flag)),
        17 => drop(n.top_down(true).len()),
        18 => drop(n.get_absolute_path()),
        19 => n.post(Log::Info("text")),
        20 => n.post(Log::Panic("text")),
        21 => n.free(),
        22 => drop(n.save_as_branch()),
        23 => drop(n.owner::<N0>().is_ok()),
        24 => drop(n.owner_dyn()),
        25 => drop(n.parent::<N0>().is_ok()),
        26 => drop(n.parent_dyn().is_ok()),
        27 => unsafe { drop(n.add_child_from_ptr(Box::into_raw(make(0, None, 1, 1)), flag, !flag)) },
        28 => warn!(n, "text {path}"),
        29 => n.post(Log::Debug("text")),
        30 => n.post(Log::Warn("")),
        31 => debug!(n, "text {}", path),
        32 => debug!(n, "text"),
        33 => info!(n, "{path}{}", 1),
        34 => info!(n, "text"),
        35 => error!(n, "text {path}"),
        _ => error!(n, "text {}", path),
    }
}

fn stray(n: &dyn Node, name: &str, when: &str) {
    ensure!(n.name() == name, "{when}, the stray node {name:?} is called {:?}", n.name());
    ensure!(!n.in_tree() && n.is_stray() && n.tree().is_none() && n.tree_mut().is_none(), "{when}, a stray node claims to be in a tree");
    ensure!(!n.is_root() && !n.is_owner(), "{when}, a stray node is root or owner");
    ensure!(n.depth() == 0, "{when}, a stray node has the depth {}", n.depth());
}

fn refuse(c: &mut Ctx, n: &mut dyn Node, name: &mut String) {
    let mut marked = false;
    for _ in 0..c.range(1, 8) {
        if c.chance(1, 4) {
            *name = c.pick(&["A", "", "A", "B1", "..", "a/b", "é"]).to_string();
            let name = name.clone();
            ensure!(catches(|| n.set_name(&name)).is_ok(), "set_name panics on a stray node");
            c.label("renamed");
            stray(n, &name, "after a renaming");
            continue;
        }
        let op = c.below(OPS);
        let r = catches(|| needy(n, op, c));
        c.note(|| format!("operation {op} on a stray node: {r:?}"));
        ensure!(r.is_err(), "operation {op} on a stray node does not panic");
        c.label("refused");
        stray(n, name, "after a refusal");
        // Whether a refused warning or panic leaves its mark is not stated.
        marked |= matches!(op, 20 | 28 | 30 | 35 | 36);
        ensure!(marked || matches!(n.status(), NodeStatus::Normal), "after operation {op}, a stray node has the status {:?}", n.status());
    }
    c.nontrivial = true;
}

pub fn check(c: &mut Ctx) {
    let class = c.below(CLASSES as usize) as u8;
    let mut name = c.pick(&["A", "N0", "x y", "é"]).to_string();
    let what = c.below(6);
    match what {
        // A node that was just made, or is a copy of one in a tree.
        0 | 1 => with_class!(class, T => {
            let mut n = T::new();
            n.set_name(&name);
            if what == 1 {
                c.label("copy of a node in a tree");
                let layers = c.below(4);
                let mut scene = NodeScene::new(n);
                if c.flag() {
                    scene.append(NodeScene::new(N1::new()));
                }
                for _ in 0..layers {
                    let mut above = NodeScene::new(N0::new());
                    if c.flag() {
                        above.append(scene);
                    } else {
                        above.append_as_owner(scene);
                    }
                    scene = above;
                }
                let mut tree = node_tree::trees::TreeSimple::new(scene, LoggerVerbosity::OnlyPanics);
                let rid = tree.root().top_down(true)[layers];
                if c.flag() {
                    tree.register_as_singleton(rid, "Single".to_string());
                }
                if c.flag() {
                    tree.get_node(rid).unwrap().post(Log::Warn("mark"));
                }
                n = tree.get_node(rid).unwrap().as_any_ref().downcast_ref::<T>().unwrap().clone();
                if c.flag() {
                    drop(tree);
                    c.label("of a tree that is gone");
                }
                ensure!(matches!(n.status(), NodeStatus::Normal), "a copy of a node has its status {:?}", n.status());
            }
            stray(&n, &name, "at first");
            refuse(c, &mut n, &mut name);
            // It still works in a tree.
            let mut tree = node_tree::trees::TreeSimple::new(N0::new(), LoggerVerbosity::OnlyPanics);
            let root = tree.get_node_mut(0).unwrap();
            root.add_child(n);
            let k = root.children();
            ensure!(k.len() == 1 && k[0].name() == name && k[0].in_tree() && !k[0].is_stray() && k[0].depth() == 1 && k[0].is::<T>(), "a stray node that was added is not as it should be");
        }),
        // Nodes in scenes.
        _ => {
            c.label("node in a scene");
            let mut top = make(class, None, 1, 2);
            top.set_name("Top");
            let mut kid = make(0, None, 3, 4);
            kid.set_name(&name);
            let mut scene = NodeScene::new_dyn(top);
            if c.flag() {
                scene.append(NodeScene::new_dyn(kid));
            } else {
                scene.append_as_owner(NodeScene::new_dyn(kid));
            }
            match what {
                2 => scene = scene.clone(),
                3 => match scene.save_to_str().map(|t| NodeScene::load_from_str(&t)) {
                    Ok(Ok(s)) => scene = s,
                    _ => discard("diverged"),
                },
                4 => {
                    c.label("branch of a tree");
                    let mut tree = node_tree::trees::TreeSimple::new(N0::new(), LoggerVerbosity::OnlyPanics);
                    let deep = c.flag();
                    tree.root_mut().add_child(if deep {
                        let mut above = NodeScene::new(N1::new());
                        above.append(scene);
                        above
                    } else {
                        scene
                    });
                    let rid = tree.root().top_down(true)[1 + deep as usize];
                    scene = tree.get_node(rid).unwrap().save_as_branch();
                }
                _ => (),
            }
            let mut n = ManuallyDrop::new(unsafe { scene.children()[0].get_node() });
            stray(&**n, &name, "at first");
            refuse(c, &mut **n, &mut name);
            let mut n = ManuallyDrop::new(unsafe { scene.get_node() });
            let mut t = "Top".to_string();
            refuse(c, &mut **n, &mut t);
            ensure!(scene.children().len() == 1, "a refusal changed the scene");
            if c.flag() {
                let tree = node_tree::trees::TreeSimple::new(scene, LoggerVerbosity::OnlyPanics);
                let root = tree.get_node(0).unwrap();
                ensure!(root.name() == t && root.num_children() == 1 && root.children()[0].name() == name, "the scene of stray nodes does not make the right tree");
            }
        }
    }
}
