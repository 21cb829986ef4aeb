//! The case engine: deterministic cases, counted evaluations, verdict plumbing.
//! An evaluation is one execution of the library observed by an oracle.
use crate::model::*;
use crate::rng::Rng;
use crate::tok;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};

pub type R = Result<(), String>;

thread_local! {
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}
pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = match info.payload().downcast_ref::<&str>() {
            Some(s) => s.to_string(),
            None => match info.payload().downcast_ref::<String>() {
                Some(s) => s.clone(),
                None => "non-string panic".into(),
            },
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let _ = LAST_PANIC.try_with(|p| {
            if let Ok(mut p) = p.try_borrow_mut() {
                *p = format!("{msg} ({loc})")
            }
        });
    }));
}
pub fn last_panic() -> String {
    LAST_PANIC.with(|p| p.borrow().clone())
}
/// run, turning a panic into `Err(message)`
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| last_panic())
}

#[derive(Default)]
pub struct Ctx {
    pub evals: u64,
    pub keys: HashSet<u64>,
    pub counters: BTreeMap<String, u64>,
    pub samples: Vec<String>,
    pub want_samples: usize,
    pub verbose: bool,
    pub route: String,
    /// memory monitoring (P17): only memory faults count, and only one evaluation in `den` is run
    pub memory: Option<Sampling>,
    pub beat: Option<Beat>,
}
/// tells the driver which case is running, and now and then that it goes on
pub struct Beat {
    pub file: std::fs::File,
    pub case: u64,
    pub began: std::time::Instant,
    pub last: std::time::Instant,
    pub n: u64,
}
impl Beat {
    pub fn new(file: std::fs::File) -> Beat {
        let now = std::time::Instant::now();
        Beat { file, case: 0, began: now, last: now, n: 0 }
    }
    fn write(&mut self) {
        use std::io::{Seek, SeekFrom, Write};
        self.last = std::time::Instant::now();
        self.file.seek(SeekFrom::Start(0)).unwrap();
        self.file.write_all(format!("{:<20} {:<12}\n", self.case, self.n).as_bytes()).unwrap();
    }
    pub fn start(&mut self, case: u64) {
        (self.case, self.n) = (case, 0);
        self.write();
        self.began = self.last;
    }
    fn on(&mut self) {
        if self.last.elapsed().as_millis() > 500 {
            self.n += 1;
            self.write();
        }
    }
}
pub struct Sampling {
    pub den: u64,
    pub salt: u64,
    pub n: u64,
    /// evaluations left in this case
    pub left: u64,
}
/// ends a case whose sampling budget is used up
pub const ENOUGH: &str = "(enough)";
impl Ctx {
    pub fn count(&mut self, name: &str, n: u64) {
        if let Some(c) = self.counters.get_mut(name) {
            *c += n;
        } else {
            self.counters.insert(name.to_string(), n);
        }
    }
    /// record the largest value seen
    pub fn peak(&mut self, name: &str, n: u64) {
        let c = self.counters.entry(name.to_string()).or_insert(0);
        *c = (*c).max(n);
    }
    /// One evaluation. `key` identifies the evaluation (shape, route, parameters); it is counted as
    /// distinct non-trivial only when `nontrivial`. `body` returns a short note of what was seen.
    pub fn eval(&mut self, key: u64, nontrivial: bool, route: impl Fn() -> String, body: impl FnOnce() -> Result<u64, String>) -> R {
        if let Some(s) = &mut self.memory {
            s.n += 1;
            if s.left == 0 || s.left < u64::MAX / 2 && self.beat.as_ref().is_some_and(|b| b.began.elapsed().as_secs() >= 4) {
                return Err(ENOUGH.into());
            }
            if crate::engine::key(&[s.salt, s.n]) % s.den != 0 {
                return Ok(());
            }
            s.left -= 1;
        }
        if self.verbose {
            self.route = route();
            eprintln!("route: {}", self.route);
        }
        if let Some(b) = &mut self.beat {
            b.on();
        }
        tok::reset();
        let r = guarded(body);
        self.evals += 1;
        if self.memory.is_some() {
            // what the sanitizers see ends the process; the ledger sees double drops and foreign bytes.
            // Wrong results are other properties' business.
            let (_, _, _, faults) = tok::audit();
            if !faults.is_empty() {
                self.route = route();
                return Err(format!("{} :: {faults:?}", self.route));
            }
            let events = match r {
                Ok(Ok(e)) => e,
                _ => 1,
            };
            self.count("events_observed", events);
            if nontrivial && self.keys.insert(key) && self.samples.len() < self.want_samples && self.keys.len() % 97 == 1 {
                self.samples.push(format!("{} -> {events} events, memory clean", route()));
            }
            return Ok(());
        }
        let fail = match r {
            Ok(Ok(events)) => {
                self.count("events_observed", events);
                if nontrivial {
                    let fresh = self.keys.insert(key);
                    if fresh && self.samples.len() < self.want_samples && self.keys.len() % 97 == 1 {
                        let s = format!("{} -> {} events, agrees", route(), events);
                        self.samples.push(s);
                    }
                }
                return Ok(());
            }
            Ok(Err(e)) => e,
            Err(p) => format!("unexpected panic: {p}"),
        };
        self.route = route();
        Err(format!("{} :: {}", self.route, fail))
    }
}

pub fn key(parts: &[u64]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for p in parts {
        h = (h ^ p).wrapping_mul(0x9E3779B97F4A7C15).rotate_left(23) ^ (h >> 31);
    }
    h
}
pub fn skey(s: &str) -> u64 {
    let mut h: u64 = 0xcbf29ce484222325;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    h
}

pub trait Prop {
    fn cases(&self) -> u64;
    fn case(&self, seed: u64, i: u64, cx: &mut Ctx) -> R;
    /// how cases are made and what makes one non-trivial
    fn rule(&self) -> String;
}

/// Trees for case numbers: every tree up to the given sizes first, then random ones.
pub struct Src {
    pub small: Vec<Model>,
    /// very wide / deep / large shapes
    pub special: Vec<Model>,
    pub random: u64,
    pub max: usize,
    pub gmax: usize,
    pub bmax: usize,
    /// now and then a random tree of some thousand nodes
    pub large: bool,
}
impl Src {
    pub fn new(gmax: usize, bmax: usize, random: u64, max: usize) -> Src {
        let mut small = if gmax > 0 { all_small(false, gmax) } else { vec![] };
        if bmax > 0 {
            small.extend(all_small(true, bmax));
        }
        // spread the expensive (large) shapes over the shards
        small.sort_by_key(|m| m.len());
        let special = if max >= 20 { specials() } else { vec![] };
        Src { small, special, random, max, gmax, bmax, large: false }
    }
    pub fn cases(&self) -> u64 {
        (self.small.len() + self.special.len()) as u64 + self.random
    }
    pub fn is_special(&self, i: u64) -> bool {
        (self.small.len()..self.small.len() + self.special.len()).contains(&(i as usize))
    }
    pub fn get(&self, stream: &str, seed: u64, i: u64) -> (Model, Rng) {
        let mut r = Rng::new(seed, stream, i);
        if (i as usize) < self.small.len() {
            return (self.small[i as usize].clone(), r);
        }
        if self.is_special(i) {
            return (self.special[i as usize - self.small.len()].clone(), r);
        }
        let bin = r.chance(1, 2);
        // mostly medium sizes, sometimes an order of magnitude more
        let m = if self.large && r.chance(1, 3000) {
            // paths and ancestor lists are as long as the tree is deep: deep ones are kept smaller
            let mut n = r.range(1000, 4000);
            loop {
                let m = sized(&mut r, bin, n).finish(0);
                if m.height() as usize * m.len() < 150_000 {
                    break m;
                }
                n = n * 2 / 3;
            }
        } else if r.chance(1, 24) {
            let n = r.range(self.max, self.max * 6);
            sized(&mut r, bin, n).finish(0)
        } else {
            random(&mut r, bin, self.max)
        };
        (m, r)
    }
    pub fn text(&self) -> String {
        format!(
            "every ordered tree with up to {} nodes and every binary tree with up to {} nodes ({} shapes), {} very wide/deep/large trees (up to 66000 siblings), then {} seeded random trees ({} shape families, mostly up to {} nodes, some up to {}{})",
            self.gmax,
            self.bmax,
            self.small.len(),
            self.special.len(),
            self.random,
            19,
            self.max,
            self.max * 6,
            if self.large { ", a few up to 4000" } else { "" }
        )
    }
}

/// shapes beyond the random generators: more siblings than 8 or 16 bits count, deep chains, large
/// complete trees
pub fn specials() -> Vec<Model> {
    let mut v = vec![];
    // a root with 66000 children; the last ones and one beyond 255 have children of their own
    let mut m = Model::single(false);
    for _ in 0..66_000 {
        m.add(0);
    }
    for p in [1usize, 257, 300, 65_536, 65_537, 65_600, 66_000] {
        let c = m.add(p);
        m.add(p);
        m.add(c);
    }
    v.push(m.finish(0));
    // 300 children under a chain, each with children
    let mut m = Model::single(false);
    let a = m.add(0);
    let b = m.add(a);
    for _ in 0..300 {
        m.add(b);
    }
    for p in 255..300 {
        let c = m.add(p);
        m.add(c);
        m.add(p);
    }
    m.add(0);
    v.push(m.finish(0));
    // chains with a leaf here and there
    let mut m = Model::single(false);
    let mut at = 0;
    for i in 0..700 {
        if i % 5 == 0 {
            m.add(at);
        }
        let n = m.add(at);
        if i % 7 == 0 {
            m.add(at);
        }
        at = n;
    }
    v.push(m.finish(0));
    for side in 0..4 {
        let mut m = Model::single(true);
        let mut at = 0;
        for i in 0..600 {
            let s = match side {
                0 => 0,
                1 => 1,
                2 => i % 2,
                _ => (i / 3) % 2,
            };
            let n = m.add_bin(at, s);
            if side == 3 && i % 4 == 0 {
                m.add_bin(at, 1 - s);
            }
            at = n;
        }
        v.push(m.finish(0));
    }
    // deep branches of different lengths, with bushes at their ends
    let mut m = Model::single(false);
    for (len, bush) in [(280, 3), (300, 1), (12, 2), (290, 0)] {
        let mut at = 0;
        for _ in 0..len {
            at = m.add(at);
        }
        for _ in 0..bush {
            let c = m.add(at);
            m.add(c);
            m.add(at);
        }
    }
    v.push(m.finish(0));
    for turn in [1, 4] {
        let mut m = Model::single(true);
        for (side, len) in [(0, 280), (1, 310)] {
            let mut at = m.add_bin(0, side);
            for i in 0..len {
                at = m.add_bin(at, (i / turn + side) % 2);
            }
            for s in [0, 1] {
                let c = m.add_bin(at, s);
                m.add_bin(c, 1 - s);
            }
        }
        v.push(m.finish(0));
    }
    // a backbone whose every node has a short leg on either side
    let mut m = Model::single(false);
    let mut at = 0;
    for _ in 0..150 {
        let a = m.add(at);
        m.add(a);
        let n = m.add(at);
        let b = m.add(at);
        m.add(b);
        m.add(b);
        at = n;
    }
    v.push(m.finish(0));
    // complete trees
    let mut m = Model::single(true);
    for i in 0..511 {
        m.add_bin(i, 0);
        m.add_bin(i, 1);
    }
    v.push(m.finish(0));
    let mut m = Model::single(false);
    for i in 0..121 {
        for _ in 0..3 {
            m.add(i);
        }
    }
    v.push(m.finish(0));
    v.push(deep(false, &[1300, 1250]).finish(0));
    v.push(deep(true, &[1250, 1300]).finish(0));
    v.push(deep(false, &[4200]).finish(0));
    v.push(deep(true, &[4200]).finish(0));
    // more nodes on a level of a binary tree than 16 bits count
    let mut m = Model::single(true);
    for i in 0..66_000 {
        m.add_bin(i, 0);
        m.add_bin(i, 1);
    }
    v.push(m.finish(0));
    v
}
/// branches of these many levels, with a bush at the end of each
pub fn deep(bin: bool, lens: &[usize]) -> Model {
    let mut m = Model::single(bin);
    for (b, len) in lens.iter().enumerate() {
        let mut at = 0;
        for i in 0..*len {
            at = if bin { m.add_bin(at, if i == 0 { b } else { (i / 2) % 2 }) } else { m.add(at) };
        }
        for s in [0, 1] {
            let c = if bin { m.add_bin(at, s) } else { m.add(at) };
            if bin {
                m.add_bin(c, 1 - s);
            } else {
                m.add(c);
            }
        }
    }
    m
}
