//! P15: `TreeOption` and `TreeResult` against `Option` and `Result`.

use crate::engine::*;
use crate::ensure;
use node_tree::prelude::*;
use node_tree::trees::TreeSimple;
use std::cell::{Cell, RefCell};
use std::fmt::Debug;

class! {
    pub declare Plain;
}

thread_local! {
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static CALLS: RefCell<Vec<String>> = const { RefCell::new(Vec::new()) };
}

macro_rules! counted {
    ($n:ident) => {
        #[derive(Debug, PartialEq, Eq, Hash)]
        pub struct $n(pub i64);
        impl $n {
            fn new(v: i64) -> Self {
                LIVE.with(|l| l.set(l.get() + 1));
                $n(v)
            }
        }
        impl Clone for $n {
            fn clone(&self) -> Self {
                call("clone", self);
                $n::new(self.0)
            }
        }
        impl Drop for $n {
            fn drop(&mut self) {
                LIVE.with(|l| l.set(l.get() - 1));
            }
        }
    };
}
counted!(D);
counted!(E);
impl Default for D {
    fn default() -> Self {
        call("default", &());
        D::new(0)
    }
}
impl std::ops::Deref for D {
    type Target = i64;
    fn deref(&self) -> &i64 {
        &self.0
    }
}
impl std::ops::DerefMut for D {
    fn deref_mut(&mut self) -> &mut i64 {
        &mut self.0
    }
}

/// A closure was called.
fn call(what: &str, with: &impl Debug) {
    CALLS.with(|c| c.borrow_mut().push(format!("{what} {with:?}")));
}
fn calls() -> Vec<String> {
    CALLS.with(|c| std::mem::take(&mut *c.borrow_mut()))
}

type O = TreeOption<'static, D>;
type R = TreeResult<'static, D, E>;

enum St {
    O(Option<D>, O),
    R(Result<D, E>, R),
}

struct W {
    tree: *mut TreeSimple,
    owners: Vec<(RID, bool, String)>,
}

impl W {
    fn dynt(&self) -> *mut dyn NodeTree {
        self.tree as *mut dyn NodeTree
    }
    fn o<T>(&self, owner: RID, v: Option<T>) -> TreeOption<'static, T> {
        unsafe { TreeOption::new(self.dynt(), owner, v) }
    }
    fn r<T, F>(&self, owner: RID, v: Result<T, F>) -> TreeResult<'static, T, F> {
        unsafe { TreeResult::new(self.dynt(), owner, v) }
    }
    fn log(&self) -> String {
        unsafe { &mut *self.tree }.base_mut().get_log().to_string()
    }
}

fn od(c: &mut Ctx) -> Option<i64> {
    if c.flag() { Some(c.draw(20) as i64) } else { None }
}
fn rd(c: &mut Ctx) -> Result<i64, i64> {
    let v = c.draw(20) as i64;
    if c.flag() { Ok(v) } else { Err(v) }
}

/// Compares the outcome of the standard method with that of the tree's.
macro_rules! same {
    ($what:expr, $std:expr, $tree:expr) => {{
        calls();
        let a = $std;
        let ca = calls();
        let b = $tree;
        let cb = calls();
        let (ta, tb) = (format!("{a:?}"), format!("{b:?}"));
        ensure!(ta == tb, "{} gives {tb}, the standard one {ta}", $what);
        ensure!(ca == cb, "{} makes the calls {cb:?}, the standard one {ca:?}", $what);
        drop((a, b));
        calls();
    }};
}

const OPS_O: [&str; 44] = [
    "map", "is", "is_some_and", "as_ref", "as_mut", "as_slice", "as_mut_slice", "unwrap_or", "unwrap_or_else", "unwrap_or_default",
    "inspect", "map_or", "map_or_else", "ok_or", "ok_or_else", "as_deref", "as_deref_mut", "iter", "iter_mut", "and",
    "and_then", "filter", "or", "or_else", "xor", "insert", "get_or_insert", "get_or_insert_default", "get_or_insert_with", "take",
    "take_if", "replace", "zip", "unzip", "copied", "cloned", "mut cloned", "transpose", "flatten", "transfer_owner",
    "clone", "unwrap", "expect", "unwrap_unchecked",
];
const OPS_R: [&str; 40] = [
    "map", "is", "is_ok_and", "is_err_and", "ok", "err", "as_ref", "as_mut", "map_or", "map_or_else",
    "map_err", "inspect", "inspect_err", "as_deref", "as_deref_mut", "iter", "iter_mut", "unwrap_or_default", "and", "and_then",
    "or", "or_else", "unwrap_or", "unwrap_or_else", "unwrap_unchecked", "copied", "cloned", "mut cloned", "transpose", "flatten",
    "transfer_owner", "clone", "to_option", "mut copied", "eq", "unwrap", "expect", "unwrap_err", "expect_err", "unwrap_err_unchecked",
];

pub fn check(c: &mut Ctx) {
    LIVE.with(|l| l.set(0));
    run(c);
    drop_kept();
    ensure!(LIVE.with(|l| l.get()) == 0, "{} values were leaked or dropped too often", LIVE.with(|l| l.get()));
}

fn run(c: &mut Ctx) {
    let verbosity = [LoggerVerbosity::OnlyPanics, LoggerVerbosity::OnlyIssues, LoggerVerbosity::NoDebug][c.below(3)].clone();
    let scene = scene! {
        Plain: "Root" [
            Plain: "A",
            Plain: "B" [ Plain: "C" ]
        ]
    };
    let tree = Box::into_raw(TreeSimple::new(scene, verbosity));
    let mut w = W { tree, owners: vec![] };
    let base = unsafe { &mut *tree }.base_mut();
    for p in ["/Root", "/Root/A", "/Root/B", "/Root/B/C"] {
        let rid = base.get_node_rid(NodePath::from_str(p), None).unwrap();
        w.owners.push((rid, true, format!("[{}]", &p[1..])));
    }
    let owner = c.below(4);
    let me = w.owners[owner].0;
    let other = w.owners[c.below(4)].0;

    let mut st = if c.flag() {
        let v = od(c);
        St::O(v.map(D::new), w.o(me, v.map(D::new)))
    } else {
        let v = rd(c);
        St::R(v.map(D::new).map_err(E::new), w.r(me, v.map(D::new).map_err(E::new)))
    };
    let steps = c.range(1, 6);
    for _ in 0..steps {
        c.step();
        if owner > 0 && w.owners[owner].1 && c.chance(1, 12) {
            // The owner, or all of its branch, goes away.
            let gone = if owner == 3 && c.flag() { 2 } else { owner };
            c.note(|| format!("free {}", w.owners[gone].2));
            base.get_node_mut(w.owners[gone].0).unwrap().free();
            w.owners[owner].1 = false;
            c.label("owner gone");
        }
        let before = w.log();
        let status = base.process();
        ensure!(matches!(status, TreeStatus::Process(_)), "the tree is {status:?}");
        let next = match st {
            St::O(a, t) => step_o(c, &w, me, other, a, t),
            St::R(a, t) => step_r(c, &w, me, other, a, t),
        };
        let after = w.log();
        match next {
            Next::Go(s) => {
                ensure!(before == after, "the log has a new entry: {}", &after[before.len()..]);
                st = s;
            }
            Next::Failed(what, msgs) => {
                c.label("failed");
                c.nontrivial = true;
                let new = after.strip_prefix(&before).unwrap_or("?").to_string();
                let status = base.process();
                if w.owners[owner].1 {
                    let head = new.lines().find(|l| !l.is_empty()).unwrap_or("").to_string();
                    ensure!(head.contains("PANIC!") && head.contains(&w.owners[owner].2), "{what} posted {head:?} instead of a panic of {}", w.owners[owner].2);
                    for m in msgs {
                        ensure!(new.contains(&m), "{what} posted a panic without the message {m:?}: {head:?}");
                    }
                    ensure!(new.matches("| PANIC! |").count() == 1, "{what} posted several panics");
                    ensure!(status == TreeStatus::Terminated, "the tree is {status:?} after {what} failed");
                } else {
                    ensure!(new.is_empty(), "{what} posted for an owner that is gone: {new:?}");
                    ensure!(matches!(status, TreeStatus::Process(_)), "the tree is {status:?} after {what} failed without an owner");
                }
                return;
            }
        }
    }
    c.nontrivial = true;
}

enum Next {
    Go(St),
    Failed(String, Vec<String>),
}

/// A method that panics if the standard one does.
fn may_panic<T: Debug>(c: &mut Ctx, what: &str, std: impl FnOnce() -> T, tree: impl FnOnce() -> T) -> Result<(), ()> {
    let a = catches(std);
    let b = catches(tree);
    c.note(|| format!("  {}", if a.is_ok() { "gives a value" } else { "fails" }));
    match (a, b) {
        (Ok(a), Ok(b)) => {
            let (a, b) = (format!("{a:?}"), format!("{b:?}"));
            ensure!(a == b, "{what} gives {b}, the standard one {a}");
            Ok(())
        }
        (Err(_), Err(_)) => Err(()),
        (Ok(_), Err(e)) => violate(format!("{what} panics, though the standard one does not: {e}")),
        (Err(_), Ok(b)) => violate(format!("{what} gives {b:?}, though the standard one panics")),
    }
}

fn step_o(c: &mut Ctx, w: &W, me: RID, other: RID, mut a: Option<D>, mut t: O) -> Next {
    let what = OPS_O[c.weighted(&[1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 3, 2, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 2, 2, 1])];
    let v = c.draw(20) as i64;
    let b = od(c);
    let yes = c.flag();
    c.note(|| format!("{a:?}.{what} with {v}, {b:?}, {yes}"));
    c.label(what);
    let d = || D::new(v);
    let stay = |a: Option<D>| {
        // Consumed methods go on with a new value.
        let n = a.as_ref().map(|d| d.0);
        drop(a);
        (n.map(D::new), w.o(me, n.map(D::new)))
    };
    calls();
    match what {
        "is" => {
            same!("is_some", a.is_some(), t.is_some());
            same!("is_none", a.is_none(), t.is_none());
        }
        "is_some_and" => same!(what, a.as_ref().is_some_and(|x| { call("f", x); yes }), t.is_some_and(|x| { call("f", x); yes })),
        "as_ref" => same!(what, a.as_ref(), t.as_ref().to_option()),
        "as_mut" => {
            same!(what, a.as_mut().map(|x| { x.0 += v; }), t.as_mut().map(|x| { x.0 += v; }).to_option());
        }
        "as_slice" => same!(what, a.as_slice(), t.as_slice()),
        "as_mut_slice" => same!(what, a.as_mut_slice().iter_mut().map(|x| { x.0 += v; x.0 }).collect::<Vec<_>>(), t.as_mut_slice().iter_mut().map(|x| { x.0 += v; x.0 }).collect::<Vec<_>>()),
        "unwrap_or" => {
            let (a2, t2) = stay(a.clone());
            same!(what, a.unwrap_or(d()), t.unwrap_or(d()));
            (a, t) = (a2, t2);
        }
        "unwrap_or_else" => {
            let (a2, t2) = stay(a.clone());
            same!(what, a.unwrap_or_else(|| { call("f", &()); d() }), t.unwrap_or_else(|| { call("f", &()); d() }));
            (a, t) = (a2, t2);
        }
        "unwrap_or_default" => {
            let (a2, t2) = stay(a.clone());
            same!(what, a.unwrap_or_default(), t.unwrap_or_default());
            (a, t) = (a2, t2);
        }
        "map" => {
            a = a.map(|x| { call("f", &x); D::new(x.0 + v) });
            let ca = calls();
            t = t.map(|x| { call("f", &x); D::new(x.0 + v) });
            ensure!(ca == calls(), "map calls its function another number of times");
        }
        "inspect" => {
            a = a.inspect(|x| call("f", x));
            let ca = calls();
            t = t.inspect(|x| call("f", x));
            ensure!(ca == calls(), "inspect calls its function another number of times");
        }
        "map_or" => {
            let (a2, t2) = stay(a.clone());
            same!(what, a.map_or(v, |x| { call("f", &x); x.0 * 3 }), t.map_or(v, |x| { call("f", &x); x.0 * 3 }));
            (a, t) = (a2, t2);
        }
        "map_or_else" => {
            let (a2, t2) = stay(a.clone());
            same!(what, a.map_or_else(|| { call("d", &()); v }, |x| { call("f", &x); x.0 * 3 }), t.map_or_else(|| { call("d", &()); v }, |x| { call("f", &x); x.0 * 3 }));
            (a, t) = (a2, t2);
        }
        "ok_or" => {
            let a = a.ok_or(E::new(v));
            let t = t.ok_or(E::new(v));
            return done_r(what, a, t, me);
        }
        "ok_or_else" => {
            calls();
            let a = a.ok_or_else(|| { call("f", &()); E::new(v) });
            let ca = calls();
            let t = t.ok_or_else(|| { call("f", &()); E::new(v) });
            ensure!(ca == calls(), "ok_or_else calls its function another number of times");
            return done_r(what, a, t, me);
        }
        "as_deref" => same!(what, a.as_deref(), t.as_deref().to_option()),
        "as_deref_mut" => same!(what, a.as_deref_mut().map(|x| { *x += v; *x }), t.as_deref_mut().to_option().map(|x| { *x += v; *x })),
        "iter" => same!(what, a.iter().collect::<Vec<_>>(), t.iter().collect::<Vec<_>>()),
        "iter_mut" => same!(what, a.iter_mut().map(|x| { x.0 += v; x.0 }).collect::<Vec<_>>(), t.iter_mut().map(|x| { x.0 += v; x.0 }).collect::<Vec<_>>()),
        "and" => {
            a = a.and(b.map(D::new));
            t = t.and(w.o(other, b.map(D::new)));
        }
        "and_then" => {
            calls();
            a = a.and_then(|x| { call("f", &x); b.map(|y| D::new(x.0 + y)) });
            let ca = calls();
            t = t.and_then(|x| { call("f", &x); w.o(other, b.map(|y| D::new(x.0 + y))) });
            ensure!(ca == calls(), "and_then calls its function another number of times");
        }
        "filter" => {
            calls();
            a = a.filter(|x| { call("f", x); yes });
            let ca = calls();
            t = t.filter(|x| { call("f", x); yes });
            ensure!(ca == calls(), "filter calls its function another number of times");
        }
        "or" => {
            a = a.or(b.map(D::new));
            t = t.or(w.o(other, b.map(D::new)));
        }
        "or_else" => {
            calls();
            a = a.or_else(|| { call("f", &()); b.map(D::new) });
            let ca = calls();
            t = t.or_else(|| { call("f", &()); w.o(other, b.map(D::new)) });
            ensure!(ca == calls(), "or_else calls its function another number of times");
        }
        "xor" => {
            a = a.xor(b.map(D::new));
            t = t.xor(w.o(other, b.map(D::new)));
        }
        "insert" => same!(what, { let x = a.insert(d()); x.0 += 1; x.0 }, { let x = t.insert(d()); x.0 += 1; x.0 }),
        "get_or_insert" => same!(what, { let x = a.get_or_insert(d()); x.0 += 1; x.0 }, { let x = t.get_or_insert(d()); x.0 += 1; x.0 }),
        "get_or_insert_default" => same!(what, { let x = a.get_or_insert_default(); x.0 += 1; x.0 }, { let x = t.get_or_insert_default(); x.0 += 1; x.0 }),
        "get_or_insert_with" => same!(
            what,
            { let x = a.get_or_insert_with(|| { call("f", &()); d() }); x.0 += 1; x.0 },
            { let x = t.get_or_insert_with(|| { call("f", &()); d() }); x.0 += 1; x.0 }
        ),
        "take" => same!(what, a.take(), t.take().to_option()),
        "take_if" => same!(
            what,
            a.take_if(|x| { call("f", x); x.0 += v; yes }),
            t.take_if(|x| { call("f", x); x.0 += v; yes }).to_option()
        ),
        "replace" => same!(what, a.replace(d()), t.replace(d())),
        "zip" => {
            let (a2, t2) = stay(a.clone());
            same!(what, a.zip(b.map(E::new)), t.zip(w.o(other, b.map(E::new))).to_option());
            (a, t) = (a2, t2);
        }
        "unzip" => {
            let p = a.as_ref().map(|x| x.0);
            let (a1, a2) = p.map(|x| (D::new(x), E::new(v))).unzip();
            let (t1, t2) = w.o(me, p.map(|x| (D::new(x), E::new(v)))).unzip();
            same!(what, (a1, a2), (t1.to_option(), t2.to_option()));
        }
        "copied" => {
            let mut n: Option<i64> = a.as_ref().map(|x| x.0);
            let mut m = w.o(me, n);
            same!(what, n.as_ref().copied(), m.as_ref().copied().to_option());
            same!("copied of a mutable reference", n.as_mut().copied(), m.as_mut().copied().to_option());
        }
        "cloned" => same!(what, a.as_ref().cloned(), t.as_ref().cloned().to_option()),
        "mut cloned" => same!(what, a.as_mut().cloned(), t.as_mut().cloned().to_option()),
        "transpose" => {
            let x: Option<Result<i64, i64>> = if yes { Some(match b { Some(v) => Ok(v), None => Err(v) }) } else { None };
            let y = w.o(me, x.map(|r| w.r(other, r)));
            same!(what, x.transpose(), y.transpose().to_result().map(|o| o.to_option()));
        }
        "flatten" => {
            let x: Option<Option<i64>> = if yes { Some(b) } else { None };
            let y = w.o(me, x.map(|r| w.o(other, r)));
            same!(what, x.flatten(), y.flatten().to_option());
        }
        "transfer_owner" => {
            let n = t.transfer_owner(w.o(other, b.map(D::new)));
            a = b.map(D::new);
            t = n;
        }
        "clone" => {
            let n = t.clone();
            ensure!(n == t, "a clone differs");
            t = n;
        }
        "unwrap" => {
            let n = a.as_ref().map(|d| d.0);
            if may_panic(c, what, || a.unwrap(), || t.unwrap()).is_err() {
                return Next::Failed(what.into(), vec!["unwrap".into()]);
            }
            (a, t) = (n.map(D::new), w.o(me, n.map(D::new)));
        }
        "expect" => {
            let n = a.as_ref().map(|d| d.0);
            let msg = *c.pick(&["no value", "", "a: b | c", "é"]);
            if may_panic(c, what, || a.expect(msg), || t.expect(msg)).is_err() {
                return Next::Failed(what.into(), vec![format!("| PANIC! | {msg}")]);
            }
            (a, t) = (n.map(D::new), w.o(me, n.map(D::new)));
        }
        _ => {
            if let Some(n) = a.as_ref().map(|d| d.0) {
                let x = unsafe { t.unwrap_unchecked() };
                ensure!(x.0 == n, "unwrap_unchecked gives {x:?}");
                t = w.o(me, Some(D::new(n)));
            }
        }
    }
    calls();
    let want = w.o(me, a.clone());
    ensure!(t == want, "after {what} there is {t:?}, expected {a:?} with the same owner");
    Next::Go(St::O(a, t))
}

fn done_r(what: &str, a: Result<D, E>, t: R, me: RID) -> Next {
    let (x, y) = (format!("{a:?}"), format!("{:?}", t.clone().to_result()));
    ensure!(x == y, "{what} gives {y}, the standard one {x}");
    let o = owner_of(&t);
    ensure!(o == me.to_string(), "{what} gives a result of the owner {o} instead of {me}");
    Next::Go(St::R(a, t))
}

/// The owner as the debug output has it; unknown if it has no such field.
fn owner_of(t: &impl Debug) -> String {
    let s = format!("{t:?}");
    s.split("owner: ").nth(1).and_then(|x| x.split([',', ' ', '}']).next()).unwrap_or("?").to_string()
}

fn step_r(c: &mut Ctx, w: &W, me: RID, other: RID, mut a: Result<D, E>, mut t: R) -> Next {
    let what = OPS_R[c.weighted(&[1, 1, 1, 1, 3, 2, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 2, 2, 2, 2, 1])];
    let v = c.draw(20) as i64;
    let b = rd(c);
    let yes = c.flag();
    c.note(|| format!("{a:?}.{what} with {v}, {b:?}, {yes}"));
    c.label(what);
    let mk = |b: Result<i64, i64>| b.map(D::new).map_err(E::new);
    let raw = |a: &Result<D, E>| a.as_ref().map(|x| x.0).map_err(|x| x.0);
    let now = raw(&a);
    // Consuming methods go on with a new value.
    macro_rules! renew {
        () => {
            (a, t) = (mk(now), w.r(me, mk(now)))
        };
    }
    calls();
    match what {
        "is" => {
            same!("is_ok", a.is_ok(), t.is_ok());
            same!("is_err", a.is_err(), t.is_err());
        }
        "is_ok_and" => same!(what, a.as_ref().is_ok_and(|x| { call("f", x); yes }), t.is_ok_and(|x| { call("f", x); yes })),
        "is_err_and" => same!(what, a.as_ref().is_err_and(|x| { call("f", x); yes }), t.is_err_and(|x| { call("f", x); yes })),
        "ok" => {
            let a = a.ok();
            let t = t.ok();
            let want = w.o(me, a.clone());
            ensure!(t == want, "ok gives {t:?}, expected {a:?}");
            return Next::Go(St::O(a, t));
        }
        "err" => {
            same!(what, a.err(), t.err().to_option());
            renew!();
        }
        "to_option" => {
            same!(what, a.ok(), t.to_option());
            renew!();
        }
        "as_ref" => same!(what, a.as_ref(), t.as_ref().to_result()),
        "as_mut" => {
            same!(
                what,
                match a.as_mut() { Ok(x) => { x.0 += v; Ok(x.0) } Err(e) => { e.0 -= v; Err(e.0) } },
                match t.as_mut().to_result() { Ok(x) => { x.0 += v; Ok(x.0) } Err(e) => { e.0 -= v; Err(e.0) } }
            );
        }
        "map" => {
            calls();
            a = a.map(|x| { call("f", &x); D::new(x.0 + v) });
            let ca = calls();
            t = t.map(|x| { call("f", &x); D::new(x.0 + v) });
            ensure!(ca == calls(), "map calls its function another number of times");
        }
        "map_or" => {
            same!(what, a.map_or(v, |x| { call("f", &x); x.0 * 3 }), t.map_or(v, |x| { call("f", &x); x.0 * 3 }));
            renew!();
        }
        "map_or_else" => {
            same!(what, a.map_or_else(|e| { call("d", &e); v }, |x| { call("f", &x); x.0 * 3 }), t.map_or_else(|e| { call("d", &e); v }, |x| { call("f", &x); x.0 * 3 }));
            renew!();
        }
        "map_err" => {
            calls();
            a = a.map_err(|x| { call("f", &x); E::new(x.0 + v) });
            let ca = calls();
            t = t.map_err(|x| { call("f", &x); E::new(x.0 + v) });
            ensure!(ca == calls(), "map_err calls its function another number of times");
        }
        "inspect" => {
            calls();
            a = a.inspect(|x| call("f", x));
            let ca = calls();
            t = t.inspect(|x| call("f", x));
            ensure!(ca == calls(), "inspect calls its function another number of times");
        }
        "inspect_err" => {
            calls();
            a = a.inspect_err(|x| call("f", x));
            let ca = calls();
            t = t.inspect_err(|x| call("f", x));
            ensure!(ca == calls(), "inspect_err calls its function another number of times");
        }
        "as_deref" => {
            same!(what, a.as_deref(), w.r(me, mk(now)).as_deref_test());
        }
        "as_deref_mut" => {
            same!(what, a.as_deref_mut().map(|x| { *x += v; *x }), w.r(me, mk(now)).as_deref_mut_test(v));
            t = w.r(me, mk(raw(&a)));
        }
        "iter" => same!(what, a.iter().collect::<Vec<_>>(), t.iter().collect::<Vec<_>>()),
        "iter_mut" => same!(what, a.iter_mut().map(|x| { x.0 += v; x.0 }).collect::<Vec<_>>(), t.iter_mut().map(|x| { x.0 += v; x.0 }).collect::<Vec<_>>()),
        "unwrap_or_default" => {
            same!(what, a.unwrap_or_default(), t.unwrap_or_default());
            renew!();
        }
        "and" => {
            a = a.and(mk(b));
            t = t.and(w.r(other, mk(b)));
        }
        "and_then" => {
            calls();
            let f = |x: D| { call("f", &x); match b { Ok(y) => Ok(D::new(x.0 + y)), Err(y) => Err(E::new(x.0 - y)) } };
            a = a.and_then(f);
            let ca = calls();
            t = t.and_then(|x| w.r(me, f(x)));
            ensure!(ca == calls(), "and_then calls its function another number of times");
        }
        "or" => {
            a = a.or(mk(b));
            t = t.or(w.r(other, mk(b)));
        }
        "or_else" => {
            calls();
            a = a.or_else(|e| { call("f", &e); mk(b) });
            let ca = calls();
            t = t.or_else::<E, _>(|e| { call("f", e); w.r(other, mk(b)) });
            ensure!(ca == calls(), "or_else calls its function another number of times");
        }
        "unwrap_or" => {
            same!(what, a.unwrap_or(D::new(v)), t.unwrap_or(D::new(v)));
            renew!();
        }
        "unwrap_or_else" => {
            same!(what, a.unwrap_or_else(|e| { call("f", &e); D::new(e.0 + v) }), t.unwrap_or_else(|e| { call("f", e); D::new(e.0 + v) }));
            renew!();
        }
        "unwrap_unchecked" => {
            if let Ok(n) = now {
                let x = unsafe { t.unwrap_unchecked() };
                ensure!(x.0 == n, "unwrap_unchecked gives {x:?}");
                renew!();
            }
        }
        "unwrap_err_unchecked" => {
            if let Err(n) = now {
                let x = unsafe { t.unwrap_err_unchecked() };
                ensure!(x.0 == n, "unwrap_err_unchecked gives {x:?}");
                renew!();
            }
        }
        "copied" => {
            let n: Result<i64, i64> = now;
            let m = w.r(me, n.as_ref().map_err(|e| *e));
            same!(what, n.as_ref().map_err(|e| *e).copied(), m.copied().to_result());
        }
        "mut copied" => {
            let mut n: Result<i64, i64> = now;
            let mut n2 = now;
            let m = w.r(me, n2.as_mut().map_err(|e| *e));
            same!(what, n.as_mut().map_err(|e| *e).copied(), m.copied().to_result());
        }
        "cloned" => same!(what, a.as_ref().cloned(), t.as_ref().cloned().to_result()),
        "mut cloned" => same!(what, a.as_mut().cloned(), t.as_mut().cloned().to_result()),
        "transpose" => {
            let x: Result<Option<i64>, i64> = if yes { Ok(b.ok()) } else { Err(v) };
            let y = w.r(me, x.map(|o| w.o(other, o)));
            same!(what, x.transpose(), y.transpose().to_option().map(|r| r.to_result()));
        }
        "flatten" => {
            let x: Result<Result<i64, i64>, i64> = if yes { Ok(b) } else { Err(v) };
            let y = w.r(me, x.map(|r| w.r(other, r)));
            same!(what, x.and_then(|x| x), y.flatten().to_result());
        }
        "transfer_owner" => {
            let n = t.transfer_owner(w.r(other, mk(b)));
            a = mk(b);
            t = n;
        }
        "clone" => {
            let n = t.clone();
            ensure!(n == t, "a clone differs");
            t = n;
        }
        "eq" => {
            let o = w.r(me, mk(b));
            ensure!((t == o) == (a == mk(b)), "== gives {}", t == o);
        }
        "unwrap" => {
            if may_panic(c, what, || a.unwrap(), || t.unwrap()).is_err() {
                return Next::Failed(what.into(), vec!["unwrap".into(), format!(": E({})", now.unwrap_err())]);
            }
            renew!();
        }
        "expect" => {
            let msg = *c.pick(&["no value", "", "a: b | c", "é"]);
            if may_panic(c, what, || a.expect(msg), || t.expect(msg)).is_err() {
                return Next::Failed(what.into(), vec![format!("| PANIC! | {msg}: E({})", now.unwrap_err())]);
            }
            renew!();
        }
        "unwrap_err" => {
            if may_panic(c, what, || a.unwrap_err(), || t.unwrap_err()).is_err() {
                return Next::Failed(what.into(), vec!["unwrap_err".into(), format!(": D({})", now.unwrap())]);
            }
            renew!();
        }
        _ => {
            let msg = *c.pick(&["no error", "", "a: b | c", "é"]);
            if may_panic(c, what, || a.expect_err(msg), || t.expect_err(msg)).is_err() {
                return Next::Failed(what.into(), vec![format!("| PANIC! | {msg}: D({})", now.unwrap())]);
            }
            renew!();
        }
    }
    calls();
    let want = w.r(me, mk(raw(&a)));
    ensure!(t == want, "after {what} there is {t:?}, expected {a:?} with the same owner");
    Next::Go(St::R(a, t))
}

/// The lifetimes of `as_deref` and `as_deref_mut` keep the result borrowed for as long as it lives.
trait DerefTest {
    fn as_deref_test(self) -> Result<&'static i64, &'static E>;
    fn as_deref_mut_test(self, add: i64) -> Result<i64, &'static mut E>;
}
impl DerefTest for R {
    fn as_deref_test(self) -> Result<&'static i64, &'static E> {
        let leak: &'static R = Box::leak(Box::new(self));
        KEEP.with(|k| k.borrow_mut().push(leak as *const R as *mut R));
        leak.as_deref().to_result()
    }
    fn as_deref_mut_test(self, add: i64) -> Result<i64, &'static mut E> {
        let p: *mut R = Box::into_raw(Box::new(self));
        KEEP.with(|k| k.borrow_mut().push(p));
        let leak: &'static mut R = unsafe { &mut *p };
        leak.as_deref_mut().to_result().map(|x| {
            *x += add;
            *x
        })
    }
}
thread_local! {
    static KEEP: RefCell<Vec<*mut R>> = const { RefCell::new(Vec::new()) };
}
pub fn drop_kept() {
    for p in KEEP.with(|k| std::mem::take(&mut *k.borrow_mut())) {
        drop(unsafe { Box::from_raw(p) });
    }
}
