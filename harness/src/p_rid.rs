//! P17: `RIDHolder` against a plain map with a counter.

use crate::engine::*;
use crate::ensure;
use node_tree::structs::rid::RIDHolder;
use std::collections::BTreeMap;

#[derive(Debug, Clone, Default, PartialEq)]
struct Item(u64);

pub fn check(c: &mut Ctx) {
    let mut next_item = 0u64;
    let mut item = || {
        next_item += 1;
        Item(next_item)
    };
    let mut model: BTreeMap<u64, Item> = BTreeMap::new();
    let mut taken: Vec<u64> = Vec::new();
    let mut holder: RIDHolder<Item> = if c.flag() {
        let n = c.below(6);
        let v: Vec<Item> = (0..n).map(|_| item()).collect();
        for (i, it) in v.iter().enumerate() {
            model.insert(i as u64, it.clone());
        }
        c.note(|| format!("from_vec of {n}"));
        c.label("from_vec");
        RIDHolder::from_vec(v)
    } else if c.flag() {
        RIDHolder::default()
    } else {
        RIDHolder::new()
    };
    let mut other: Option<(RIDHolder<Item>, BTreeMap<u64, Item>, Vec<u64>)> = None;
    let n = if c.chance(1, 1000) { c.range(200, 600) } else { c.range(1, 40) };
    for _ in 0..n {
        c.step();
        let known: Vec<u64> = model.keys().copied().collect();
        let some_rid = |c: &mut Ctx| -> u64 {
            match c.draw(4) {
                0 | 1 if !known.is_empty() => *c.pick(&known),
                2 if !taken.is_empty() => *c.pick(&taken),
                2 => c.bits(),
                // One that differs from a known one in its upper bits only.
                3 if !known.is_empty() && c.chance(1, 4) => *c.pick(&known) + (1 << *c.pick(&[8, 16, 31, 32, 48, 63])),
                _ => c.draw(60),
            }
        };
        match c.weighted(if n > 40 { &[10, 4, 2, 1, 1, 1] } else { &[5, 5, 3, 2, 1, 1] }) {
            0 => {
                let it = item();
                let rid = holder.push(it.clone());
                c.note(|| format!("push -> {rid}"));
                ensure!(!model.contains_key(&rid), "push gave out {rid}, which is in use");
                ensure!(!taken.contains(&rid), "push gave out {rid} again after its item was removed");
                model.insert(rid, it);
                if !taken.is_empty() {
                    c.label("push after take");
                    c.nontrivial = true;
                }
            }
            1 => {
                let rid = some_rid(c);
                let got = holder.take(rid);
                let want = model.remove(&rid);
                c.note(|| format!("take {rid} -> {got:?}"));
                ensure!(got == want, "take({rid}) gave {got:?}, expected {want:?}");
                if want.is_some() {
                    taken.push(rid);
                    c.label("take");
                }
            }
            2 => {
                let rid = some_rid(c);
                let got = holder.retrieve(rid).cloned();
                ensure!(got == model.get(&rid).cloned(), "retrieve({rid}) gave {got:?}, expected {:?}", model.get(&rid));
            }
            3 => {
                let rid = some_rid(c);
                let it = item();
                if let Some(slot) = holder.modify(rid) {
                    ensure!(model.get(&rid) == Some(&*slot), "modify({rid}) gave the wrong item");
                    *slot = it.clone();
                    model.insert(rid, it);
                } else {
                    ensure!(!model.contains_key(&rid), "modify({rid}) found nothing");
                }
            }
            4 => {
                for (rid, it) in holder.iter_mut_enumerated() {
                    ensure!(model.get(rid) == Some(&*it), "iter_mut_enumerated gave a wrong pair at {rid}");
                    it.0 += 1000;
                }
                for it in model.values_mut() {
                    it.0 += 1000;
                }
                let mut a: Vec<u64> = holder.iter_mut().map(|i| i.0).collect();
                let mut b: Vec<u64> = model.values().map(|i| i.0).collect();
                a.sort();
                b.sort();
                ensure!(a == b, "iter_mut gave {a:?}, expected {b:?}");
            }
            _ => match other.take() {
                // From now on the copy is used, and the original kept, or the other way round.
                Some(mut o) if c.flag() => {
                    c.note(|| "swap with the copy".into());
                    c.label("copy used");
                    std::mem::swap(&mut o.0, &mut holder);
                    std::mem::swap(&mut o.1, &mut model);
                    std::mem::swap(&mut o.2, &mut taken);
                    other = Some(o);
                }
                _ => {
                    c.note(|| "clone".into());
                    c.label("clone");
                    other = Some((holder.clone(), model.clone(), taken.clone()));
                }
            },
        }
        audit(&holder, &model);
    }
    if let Some((h, m, _)) = other {
        audit(&h, &m);
    }
}

fn audit(holder: &RIDHolder<Item>, model: &BTreeMap<u64, Item>) {
    ensure!(holder.len() == model.len(), "len() is {}, expected {}", holder.len(), model.len());
    ensure!(holder.is_empty() == model.is_empty(), "is_empty() is wrong");
    let mut a: Vec<(u64, u64)> = holder.iter_enumerated().map(|(r, i)| (*r, i.0)).collect();
    let b: Vec<(u64, u64)> = model.iter().map(|(r, i)| (*r, i.0)).collect();
    a.sort();
    ensure!(a == b, "the holder has {a:?}, expected {b:?}");
    let mut x: Vec<u64> = holder.iter().map(|i| i.0).collect();
    let mut y: Vec<u64> = model.values().map(|i| i.0).collect();
    x.sort();
    y.sort();
    ensure!(x == y, "iter() gave {x:?}, expected {y:?}");
}
