//! P26: what the trees, scenes and signals hold is dropped with them, once.

use crate::engine::*;
use crate::ensure;
use crate::nodes::*;
use crate::world::*;
use crate::{hist, p_signal};
use node_tree::prelude::*;

pub fn check(c: &mut Ctx) {
    match c.draw(8) {
        0..=4 => hist::check(c),
        5 => p_signal::check(c),
        _ => texts(c),
    }
}

fn len(s: &NodeScene) -> usize {
    1 + s.children().iter().map(len).sum::<usize>()
}

fn expect(first: u64, held: usize, when: &str) {
    let left = undropped(first);
    ensure!(left.len() == held, "{when}, {} node instances exist, but only {held} are held", left.len());
}

/// Scenes that are saved, read from whole and damaged texts, copied and thrown away.
pub fn texts(c: &mut Ctx) {
    let first = next_serial();
    let mut w = World::new(c);
    let n = c.range(1, 6);
    let mut shape = w.gen_shape(n);
    if c.chance(1, 10) {
        shape.val = 1;
    }
    let scene = World::build_scene(&shape);
    let size = len(&scene);
    expect(first, size, "after a scene was built");
    let text = match scene.save_to_str() {
        Ok(t) => t,
        Err(e) => violate(format!("save_to_str: {e}")),
    };
    expect(first, size, "after a scene was saved");
    let _ = scene.structural_hash();
    for _ in 0..c.range(1, 6) {
        let mut lines: Vec<String> = text.lines().map(|l| l.to_string()).collect();
        for _ in 0..c.below(3) {
            let i = c.below(lines.len());
            match c.below(7) {
                0 => _ = lines.remove(i),
                1 => {
                    let j = c.below(lines.len());
                    lines.swap(i, j);
                }
                2 => lines[i] = lines[i].replace("N1", "N9"),
                3 => lines[i] = lines[i].replace("parent = ", "parent = 7"),
                4 => lines[i] = lines[i].replace("val = ", "val = x"),
                5 => lines[i] = lines[i].replace("val", "vol"),
                _ => lines[i] += "\nmore = 3",
            }
            if lines.is_empty() {
                lines.push(String::new());
            }
        }
        let r = NodeScene::load_from_str(&lines.join("\n"));
        match r {
            Ok(s) => {
                c.label("text was loaded");
                let n = len(&s);
                expect(first, size + n, "after a scene was loaded");
                match c.below(4) {
                    0 => {
                        let copy = s.clone();
                        expect(first, size + 2 * n, "after a scene was cloned");
                        drop(s);
                        expect(first, size + n, "after a scene whose clone remains was dropped");
                        ensure!(len(&copy) == n, "the clone of a dropped scene has another shape");
                        let _ = copy.save_to_str();
                    }
                    1 => {
                        let tree = node_tree::trees::TreeSimple::new(s, LoggerVerbosity::OnlyPanics);
                        expect(first, size + n, "after a tree was made of a scene");
                        drop(tree);
                    }
                    2 => {
                        let mut top = NodeScene::new(N0::new());
                        top.append(s);
                        top.append_as_owner(NodeScene::new_dyn(make(2, None, 1, 2)));
                        expect(first, size + n + 2, "after a scene was appended");
                        let mut tree = node_tree::trees::TreeSimple::new(top, LoggerVerbosity::OnlyPanics);
                        tree.process();
                    }
                    _ => drop(s),
                }
                expect(first, size, "after a loaded scene was used up");
            }
            Err(_) => {
                c.label("text was refused");
                c.nontrivial = true;
                expect(first, size, "after a text was refused");
            }
        }
    }
    drop(scene);
    all_dropped(first);
    c.nontrivial |= size > 1;
}

pub fn all_dropped(first: u64) {
    for s in first..next_serial() {
        ensure!(drops(s) == 1, "in the end, instance #{s} was dropped {} times", drops(s));
    }
}
