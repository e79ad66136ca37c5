//! Coverage feedback: the counters which the compiler puts on the edges of the code under test, and the tapes that
//! reached something new. Where the code was built without counters, nothing is ever new.

use crate::engine::Rng;
use std::sync::Mutex;

static REGIONS: Mutex<Vec<(usize, usize)>> = Mutex::new(Vec::new());

#[unsafe(no_mangle)]
pub extern "C" fn __sanitizer_cov_8bit_counters_init(start: *mut u8, stop: *mut u8) {
    if start < stop {
        let mut r = REGIONS.lock().unwrap();
        if !r.contains(&(start as usize, stop as usize)) {
            r.push((start as usize, stop as usize));
        }
    }
}

#[unsafe(no_mangle)]
pub extern "C" fn __sanitizer_cov_pcs_init(_start: *const usize, _stop: *const usize) {}

/// How many cases ran each of the edges how often, roughly: eight classes for each edge.
pub struct Seen(Vec<u32>);

impl Seen {
    pub fn new() -> Self {
        let n: usize = REGIONS.lock().unwrap().iter().map(|(a, b)| b - a).sum();
        Seen(vec![0; 8 * n])
    }

    pub fn edges(&self) -> (usize, usize) {
        (self.0.chunks(8).filter(|c| c.iter().any(|n| *n != 0)).count(), self.0.len() / 8)
    }

    /// Takes in what was run since the last call. Returns what of it is new.
    pub fn take(&mut self) -> Vec<usize> {
        let mut new = Vec::new();
        let mut i = 0;
        for &(start, stop) in REGIONS.lock().unwrap().iter() {
            for at in start..stop {
                // The cases run one after another, so nobody else looks at the counters now.
                let p = at as *mut u8;
                let n = unsafe { p.read_volatile() };
                if n != 0 {
                    unsafe { p.write_volatile(0) };
                    let class = match n {
                        1..=3 => n as usize - 1,
                        4..=7 => 3,
                        8..=15 => 4,
                        16..=31 => 5,
                        32..=127 => 6,
                        _ => 7,
                    };
                    let hits = &mut self.0[i + class];
                    *hits = hits.saturating_add(1);
                    if *hits == 1 {
                        new.push(i + class);
                    }
                }
                i += 8;
            }
        }
        new
    }
}

/// A tape that ran something new.
pub struct Entry {
    pub tape: Vec<u64>,
    /// Where the steps of the case start.
    pub marks: Vec<usize>,
    pub new: Vec<usize>,
}

pub struct Corpus(pub Vec<Entry>);

impl Corpus {
    /// A tape like one of them, most often like one that ran something that is still rare.
    pub fn vary(&self, r: &mut Rng, seen: &Seen) -> Vec<u64> {
        let mut below = |n: usize| (r.next() % n.max(1) as u64) as usize;
        let n = self.0.len();
        if n == 0 {
            return Vec::new();
        }
        let rare = |i: &usize| self.0[*i].new.iter().map(|e| seen.0[*e]).min();
        let tries = [1, 3, 9][below(3)];
        let few: Vec<usize> = (0..tries).map(|_| below(n)).collect();
        let entry = &self.0[few.into_iter().min_by_key(rare).unwrap()];
        let mut t = entry.tape.clone();
        // Whole steps are taken out, repeated or brought in from another case.
        if entry.marks.len() > 1 && below(3) != 0 {
            let step = |e: &Entry, i: usize| e.tape[e.marks[i]..e.marks.get(i + 1).copied().unwrap_or(e.tape.len())].to_vec();
            let head = entry.tape[..entry.marks[0]].to_vec();
            let mut steps: Vec<Vec<u64>> = (0..entry.marks.len()).map(|i| step(entry, i)).collect();
            for _ in 0..1 + below(3) {
                let at = below(steps.len() + 1);
                let len = {
                    let most = [1, 2, 8][below(3)].min(steps.len() - at);
                    1 + below(most)
                };
                match below(7) {
                    0 => steps.truncate(at),
                    1 if at < steps.len() => {
                        steps.drain(at..at + len);
                    }
                    2 if at < steps.len() => {
                        let part = steps[at..at + len].to_vec();
                        for _ in 0..1 + below(4) {
                            steps.splice(at..at, part.iter().cloned());
                        }
                    }
                    3 if at < steps.len() => {
                        let b = below(steps.len());
                        steps.swap(at, b);
                    }
                    4 if at < steps.len() && !steps[at].is_empty() => {
                        let i = below(steps[at].len());
                        let v = steps[at][i];
                        let any = below(1 << 20) as u64;
                        steps[at][i] = [0, u64::MAX, v.wrapping_add(1), v.wrapping_sub(1), any][below(5)];
                    }
                    _ => {
                        let other = &self.0[below(n)];
                        if !other.marks.is_empty() {
                            let from = below(other.marks.len());
                            for i in (from..(from + len).min(other.marks.len())).rev() {
                                steps.insert(at, step(other, i));
                            }
                        }
                    }
                }
            }
            t = head;
            t.extend(steps.concat());
            return t;
        }
        for _ in 0..1 + below(4) {
            if t.is_empty() {
                break;
            }
            let at = below(t.len());
            let most = [1, 4, 16, 64][below(4)];
            let len = 1 + below(most).min(t.len() - at - 1);
            match below(9) {
                // What follows is drawn anew.
                0 | 1 => t.truncate(at),
                2 => t[at] = below(1 << 20) as u64,
                3 => t[at] = t[at].wrapping_add([1, u64::MAX][below(2)]),
                4 => t[at] = [0, u64::MAX][below(2)],
                5 => {
                    t.drain(at..at + len);
                }
                6 => {
                    let part = t[at..at + len].to_vec();
                    let to = if below(2) == 0 { at } else { below(t.len()) };
                    for _ in 0..1 + below(3) {
                        t.splice(to..to, part.iter().copied());
                    }
                }
                7 => {
                    let other = &self.0[below(n)].tape;
                    if !other.is_empty() {
                        let from = if below(2) == 0 { at.min(other.len() - 1) } else { below(other.len()) };
                        let part = &other[from..(from + len).min(other.len())];
                        t.splice(at..at + if below(2) == 0 { len } else { 0 }, part.iter().copied());
                    }
                }
                // The rest of another one.
                _ => {
                    let other = &self.0[below(n)].tape;
                    t.truncate(at);
                    t.extend(other.iter().skip(at));
                }
            }
        }
        t
    }
}
