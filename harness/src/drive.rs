//! Runs a check over enumerated and random cases on all cores.
use std::collections::HashSet;
use std::hash::{Hash, Hasher};
use std::collections::hash_map::DefaultHasher;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};
use std::sync::Mutex;
use std::time::{Duration, Instant};

use crate::rng::Rng;

#[derive(Clone, Debug)]
pub struct Failure {
    pub suite: String,
    pub input: String,
    pub what: String,
}

pub struct Report {
    pub evaluations: AtomicU64,
    pub distinct: AtomicU64,
    pub nontrivial: AtomicU64,
    pub parts: Mutex<Vec<(String, u64, bool)>>, // name, cases, exhaustive
    pub samples: Mutex<Vec<String>>,
    pub failures: Mutex<Vec<Failure>>,
    pub rules: Mutex<Vec<String>>,
}

impl Report {
    pub fn new() -> Report {
        Report {
            evaluations: AtomicU64::new(0),
            distinct: AtomicU64::new(0),
            nontrivial: AtomicU64::new(0),
            parts: Mutex::new(Vec::new()),
            samples: Mutex::new(Vec::new()),
            failures: Mutex::new(Vec::new()),
            rules: Mutex::new(Vec::new()),
        }
    }
    pub fn fail(&self, suite: &str, input: &str, what: &str) {
        let mut f = self.failures.lock().unwrap();
        if f.len() < 5 {
            f.push(Failure { suite: suite.into(), input: input.into(),
                             what: what.into() });
        }
    }
    pub fn count(&self, suite: &str, n: u64, exhaustive: bool) {
        self.evaluations.fetch_add(n, SeqCst);
        self.distinct.fetch_add(n, SeqCst);
        self.nontrivial.fetch_add(n, SeqCst);
        self.parts.lock().unwrap().push((suite.into(), n, exhaustive));
    }
    pub fn sample(&self, s: &str) {
        let mut v = self.samples.lock().unwrap();
        if v.len() < 12 { v.push(s.to_string()) }
    }
}

pub enum Verdict { Trivial, Good, Bad(String) }

pub const THREADS: usize = 8;
/// A single case that takes longer than this is reported as a hang
pub const HANG: Duration = Duration::from_secs(60);

fn hash(s: &str) -> u64 {
    let mut h = DefaultHasher::new();
    s.hash(&mut h);
    h.finish()
}

/// `make(k, rng)` gives the k-th case, `check` decides it
pub fn run(rep: &Report, suite: &str, seed: u64, total: u64, exhaustive: bool,
           make: &(dyn Fn(u64, &mut Rng) -> Option<String> + Sync),
           check: &(dyn Fn(&str) -> Verdict + Sync))
{
    let next = AtomicU64::new(0);
    let stop = AtomicBool::new(false);
    let seen: Vec<Mutex<HashSet<u64>>> =
        (0..64).map(|_| Mutex::new(HashSet::new())).collect();
    let current: Vec<Mutex<Option<(Instant, String)>>> =
        (0..THREADS).map(|_| Mutex::new(None)).collect();
    let done = AtomicU64::new(0);
    let tag = hash(suite);
    std::thread::scope(|sc| {
        let workers: Vec<_> = (0..THREADS).map(|w| {
            let (next, stop, seen, current, done) =
                (&next, &stop, &seen, &current, &done);
            std::thread::Builder::new().stack_size(256 << 20)
            .spawn_scoped(sc, move || {
                const CHUNK: u64 = 64;
                'outer: loop {
                    let a = next.fetch_add(CHUNK, SeqCst);
                    if a >= total || stop.load(SeqCst) { break }
                    for k in a..(a + CHUNK).min(total) {
                        let mut r = Rng::new(seed ^ tag, k);
                        let Some(text) = make(k, &mut r) else { continue };
                        *current[w].lock().unwrap() =
                            Some((Instant::now(), text.clone()));
                        let v = check(&text);
                        *current[w].lock().unwrap() = None;
                        rep.evaluations.fetch_add(1, SeqCst);
                        done.fetch_add(1, SeqCst);
                        let h = hash(&text);
                        let fresh = if exhaustive { true } else {
                            let mut s = seen[(h % 64) as usize].lock().unwrap();
                            s.len() >= 60_000 || s.insert(h)
                        };
                        if fresh { rep.distinct.fetch_add(1, SeqCst); }
                        match v {
                            Verdict::Trivial => {}
                            Verdict::Good => {
                                if fresh {
                                    let n = rep.nontrivial
                                        .fetch_add(1, SeqCst);
                                    if n % 9973 == 7 { rep.sample(&text) }
                                }
                            }
                            Verdict::Bad(what) => {
                                let (t, w) = shrink(&text, what, check);
                                rep.fail(suite, &t, &w);
                                stop.store(true, SeqCst);
                                break 'outer;
                            }
                        }
                    }
                }
            }).unwrap()
        }).collect();
        // watchdog
        while !workers.iter().all(|w| w.is_finished()) {
            std::thread::sleep(Duration::from_millis(20));
            for c in &current {
                let slow = c.lock().unwrap().as_ref()
                    .filter(|(t, _)| t.elapsed() > HANG)
                    .map(|(_, s)| s.clone());
                if let Some(text) = slow {
                    rep.fail(suite, &text,
                        "no result after 60 s: parsing or decoding does not \
                         terminate in reasonable time");
                    crate::finish(rep);
                }
            }
        }
    });
    rep.parts.lock().unwrap()
        .push((suite.into(), done.load(SeqCst),
               exhaustive && !stop.load(SeqCst)));
}

fn shrink(text: &str, what: String, check: &dyn Fn(&str) -> Verdict)
    -> (String, String)
{
    let mut best: Vec<char> = text.chars().collect();
    let mut what = what;
    let t0 = Instant::now();
    let mut size = (best.len() / 2).max(1);
    loop {
        let mut i = 0;
        let mut changed = false;
        while i < best.len() && t0.elapsed() < Duration::from_secs(5) {
            let mut c = best.clone();
            c.drain(i..(i + size).min(c.len()));
            let s: String = c.iter().collect();
            if let Verdict::Bad(w) = check(&s) {
                best = c;
                what = w;
                changed = true;
            } else {
                i += size;
            }
        }
        if size > 1 { size /= 2 }
        else if !changed || t0.elapsed() >= Duration::from_secs(5) { break }
    }
    (best.into_iter().collect(), what)
}
