mod cov;
mod engine;
mod hist;
mod nodes;
mod p_drop;
mod p_field;
mod p_opt;
mod p_rid;
mod p_scene;
mod p_signal;
mod p_stray;
mod p_trees;
mod p_value;
mod wild;
mod world;

use engine::*;
use std::collections::BTreeMap;
use std::fs;
use std::io::Write;
use std::os::unix::fs::FileExt;

fn registry() -> Vec<(&'static str, Check)> {
    let mut r: Vec<(&'static str, Check)> = vec![("P17", p_rid::check as Check), ("P13", p_signal::check), ("P15", p_opt::check), ("P16", p_field::check), ("P11", p_value::check), ("P10", p_scene::check), ("P12", p_scene::check), ("P26", p_drop::check), ("P27", p_stray::check), ("P28", p_trees::check), ("P18", copies), ("P21", memory)];
    for p in ["P01", "P02", "P03", "P04", "P05", "P06", "P07", "P08", "P09", "P14", "P22", "P23"] {
        r.push((p, hist::check));
    }
    r
}

/// P18: one case in eight is about scenes of nodes with many kinds of fields.
fn copies(c: &mut Ctx) {
    if c.draw(8) == 7 { p_scene::check(c) } else { hist::check(c) }
}

/// P21: everything is run for what it does to memory; what else it does wrong is left to the other checks.
fn memory(c: &mut Ctx) {
    let part: Check = match c.draw(21) {
        0..=6 => return hist::check(c),
        12..=17 => return wild::check(c),
        7 => p_signal::check,
        18 => p_stray::check,
        19 => p_drop::texts,
        20 => p_trees::check,
        8 => p_opt::check,
        9 => p_value::check,
        10 => p_scene::copies,
        _ => if c.flag() { p_scene::save_and_load } else { p_scene::documents },
    };
    c.label("other parts");
    if catches_all(|| part(c)).is_err() {
        discard("diverged");
    }
}

fn find(pid: &str) -> (&'static str, Check) {
    registry().into_iter().find(|(p, _)| *p == pid).unwrap_or_else(|| {
        eprintln!("no such property: {pid}");
        std::process::exit(2)
    })
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o += "\\\"",
            '\\' => o += "\\\\",
            '\n' => o += "\\n",
            c if (c as u32) < 0x20 || (c as u32) == 0x7f => o += &format!("\\u{:04x}", c as u32),
            c => o.push(c),
        }
    }
    o + "\""
}

fn arg(args: &[String], name: &str) -> Option<String> {
    args.iter().position(|a| a == name).and_then(|i| args.get(i + 1).cloned())
}
fn num(args: &[String], name: &str, default: u64) -> u64 {
    arg(args, name).map(|v| v.parse().unwrap()).unwrap_or(default)
}

fn pid_hash(pid: &str) -> u64 {
    pid.bytes().fold(0, |a, b| a * 131 + b as u64)
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    install_panic_hook();
    let cmd = args.get(1).map(|s| s.as_str()).unwrap_or("");
    match cmd {
        "list" => {
            for (p, _) in registry() {
                eprintln!("{p}");
            }
        }
        "run" => run(&args),
        "replay" => replay(&args),
        // What becomes of the inputs of the known findings.
        "probe" => {
            let found: Vec<Option<String>> = match arg(&args, "--pid").as_deref() {
                Some("P10") => vec![p_scene::probe_quotes()],
                _ => Vec::new(),
            };
            for m in found.into_iter().flatten() {
                eprintln!("{m}");
            }
        }
        _ => {
            eprintln!("usage: ntcheck run|replay|list");
            std::process::exit(2);
        }
    }
}

/// Runs a share of the cases. Writes a summary; stops at the first violation.
fn run(args: &[String]) {
    let (pid, check) = find(&arg(args, "--pid").unwrap());
    let seed = num(args, "--seed", 1);
    let start = num(args, "--start", 0);
    let stride = num(args, "--stride", 1);
    let count = num(args, "--count", 100);
    let secs = num(args, "--secs", 0);
    let thorough = args.iter().any(|a| a == "--thorough");
    let out = arg(args, "--out").unwrap();
    let cur = fs::File::create(format!("{out}.cur")).unwrap();
    let began = std::time::Instant::now();

    let mut labels: BTreeMap<String, u64> = BTreeMap::new();
    let mut hashes: Vec<u8> = Vec::new();
    let mut samples: Vec<Vec<String>> = Vec::new();
    let (mut passed, mut discarded, mut nontrivial, mut steps, mut done) = (0u64, 0u64, 0u64, 0u64, 0u64);
    let mut reasons: BTreeMap<String, u64> = BTreeMap::new();
    let mut violation: Option<(u64, String, Vec<u64>)> = None;
    // After the random cases come those that are led by what the cases before them ran: the tapes that ran something
    // new are varied.
    let led = num(args, "--led", 0);
    let mut seen = cov::Seen::new();
    let mut corpus = cov::Corpus(Vec::new());
    let (mut led_done, mut led_new, mut edges_random, mut cost_random) = (0u64, 0u64, 0, 0u64);
    seen.take();
    for k in 0..count + led {
        let spent = began.elapsed().as_secs();
        let is_led = k >= count || (secs > 0 && led > 0 && spent >= secs / 2);
        if secs > 0 && spent >= secs {
            break;
        }
        let i = start + k * stride;
        cur.write_at(&i.to_le_bytes(), 0).unwrap();
        let case_seed = mix(&[seed, pid_hash(pid), i]);
        let mut ctx = if is_led {
            let mut r = Rng(case_seed);
            let tape = corpus.vary(&mut r, &seen);
            if led_done == 0 {
                edges_random = seen.edges().0;
            }
            led_done += 1;
            let text: Vec<String> = tape.iter().map(|v| v.to_string()).collect();
            fs::write(format!("{out}.led"), format!("{} {}", r.0, text.join(" "))).unwrap();
            Ctx::led(pid, tape, r.0)
        } else {
            Ctx::random(pid, case_seed)
        };
        ctx.thorough = thorough;
        ctx.tracing = samples.len() < 2;
        let (ctx, outcome) = run_case(check, ctx, hash_seed(pid));
        done += 1;
        if led > 0 {
            let cost = ctx.rec.len() as u64 + 8 * ctx.steps;
            if !is_led {
                cost_random += cost;
            }
            // What is new but large is left alone: its variants would take the time of all the others.
            let new = seen.take();
            if !new.is_empty() && !matches!(outcome, Outcome::Discarded(_)) && cost <= 300 + 3 * cost_random / (done - led_done).max(1) {
                corpus.0.push(cov::Entry { tape: ctx.rec.clone(), marks: ctx.marks.clone(), new });
                led_new += is_led as u64;
            }
        }
        match outcome {
            Outcome::Pass => {
                passed += 1;
                steps += ctx.steps;
                for (l, c) in &ctx.labels {
                    *labels.entry(l.clone()).or_insert(0) += c;
                }
                if ctx.nontrivial {
                    nontrivial += 1;
                    hashes.extend_from_slice(&ctx.digest().to_le_bytes());
                    if ctx.tracing {
                        samples.push(ctx.trace);
                    }
                }
            }
            Outcome::Discarded(why) => {
                discarded += 1;
                *reasons.entry(why).or_insert(0) += 1;
            }
            Outcome::Violated(msg) => {
                violation = Some((i, msg, ctx.rec));
                break;
            }
        }
    }
    fs::write(format!("{out}.hashes"), &hashes).unwrap();
    let mut j = String::from("{");
    j += &format!("\"done\":{done},\"passed\":{passed},\"discarded\":{discarded},\"nontrivial\":{nontrivial},\"steps\":{steps},");
    let map = |m: &BTreeMap<String, u64>| m.iter().map(|(l, c)| format!("{}:{c}", js(l))).collect::<Vec<_>>().join(",");
    let (edges, of) = seen.edges();
    j += &format!("\"led\":{led_done},\"led_new\":{led_new},\"corpus\":{},\"edges_random\":{edges_random},\"edges\":{edges},\"edges_of\":{of},", corpus.0.len());
    j += &format!("\"labels\":{{{}}},\"discards\":{{{}}},", map(&labels), map(&reasons));
    let sm: Vec<String> = samples
        .iter()
        .map(|t| format!("[{}]", t.iter().take(60).map(|l| js(l)).collect::<Vec<_>>().join(",")))
        .collect();
    j += &format!("\"samples\":[{}],", sm.join(","));
    match violation {
        None => j += "\"violation\":null}",
        Some((i, msg, tape)) => {
            let t: Vec<String> = tape.iter().map(|v| v.to_string()).collect();
            j += &format!("\"violation\":{{\"case\":{i},\"message\":{},\"tape\":[{}]}}}}", js(&msg), t.join(","));
        }
    }
    let mut f = fs::File::create(format!("{out}.json.part")).unwrap();
    f.write_all(j.as_bytes()).unwrap();
    fs::rename(format!("{out}.json.part"), format!("{out}.json")).unwrap();
}

/// Hash seeds do not depend on the case: what a tape does is decided by the tape alone.
fn hash_seed(pid: &str) -> u64 {
    mix(&[77, pid_hash(pid)])
}

/// Runs one case, either from a tape file or from a case number. Exit code: 0 passed, 3 violated, 4 discarded.
fn replay(args: &[String]) {
    let (pid, check) = find(&arg(args, "--pid").unwrap());
    let mut ctx = match arg(args, "--tape") {
        Some(f) => {
            let t = fs::read_to_string(f).unwrap();
            let mut t = t.split_whitespace().map(|v| v.parse().unwrap());
            // The tape of a case that was led starts with the seed of what follows it.
            if args.iter().any(|a| a == "--led") {
                let seed = t.next().unwrap();
                Ctx::led(pid, t.collect(), seed)
            } else {
                Ctx::replay(pid, t.collect())
            }
        }
        None => Ctx::random(pid, mix(&[num(args, "--seed", 1), pid_hash(pid), num(args, "--case", 0)])),
    };
    ctx.thorough = args.iter().any(|a| a == "--thorough");
    if let Some(f) = arg(args, "--dump") {
        ctx.dump_to(fs::File::create(f).unwrap());
    }
    if args.iter().any(|a| a == "--trace") {
        ctx.tracing = true;
        TRACE_STDERR.store(1, std::sync::atomic::Ordering::Relaxed);
    }
    let (ctx, outcome) = run_case(check, ctx, hash_seed(pid));
    if let Some(f) = arg(args, "--rec") {
        let t: Vec<String> = ctx.rec.iter().map(|v| v.to_string()).collect();
        fs::write(f, t.join(" ")).unwrap();
    }
    match outcome {
        Outcome::Pass => {
            eprintln!("passed; nontrivial={} labels={:?}", ctx.nontrivial, ctx.labels);
        }
        Outcome::Discarded(why) => {
            eprintln!("discarded: {why}");
            std::process::exit(4);
        }
        Outcome::Violated(msg) => {
            eprintln!("violated: {msg}");
            std::process::exit(3);
        }
    }
}
