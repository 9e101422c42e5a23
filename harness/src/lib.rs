pub mod drive;
pub mod gen;
pub mod real;
pub mod refp;
pub mod rng;
pub mod scalar;

use std::sync::atomic::Ordering::SeqCst;
use std::sync::OnceLock;

pub static OUT: OnceLock<(String, String, String, u64)> = OnceLock::new();

pub fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 0x20 || (c as u32) > 0x7e => {
                let mut b = [0u16; 2];
                for u in c.encode_utf16(&mut b) {
                    o.push_str(&format!("\\u{:04x}", u));
                }
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

/// Writes the report and ends the process
pub fn finish(rep: &drive::Report) -> ! {
    let (id, out, tier, seed) = OUT.get().unwrap().clone();
    let parts: Vec<String> = rep.parts.lock().unwrap().iter().map(|p| {
        format!("{{\"suite\":{},\"cases\":{},\"exhaustive\":{}}}",
                js(&p.0), p.1, p.2)
    }).collect();
    let fails: Vec<String> = rep.failures.lock().unwrap().iter().map(|f| {
        format!("{{\"suite\":{},\"input\":{},\"what\":{}}}",
                js(&f.suite), js(&f.input), js(&f.what))
    }).collect();
    let samples: Vec<String> = rep.samples.lock().unwrap().iter()
        .map(|s| js(s)).collect();
    let rules: Vec<String> = rep.rules.lock().unwrap().iter()
        .map(|s| js(s)).collect();
    let text = format!(
        "{{\"property\":{},\"tier\":{},\"seed\":{},\"evaluations\":{},\
         \"distinct\":{},\"nontrivial\":{},\"parts\":[{}],\"samples\":[{}],\
         \"rules\":[{}],\"failures\":[{}]}}\n",
        js(&id), js(&tier), seed,
        rep.evaluations.load(SeqCst), rep.distinct.load(SeqCst),
        rep.nontrivial.load(SeqCst),
        parts.join(","), samples.join(","), rules.join(","), fails.join(","));
    std::fs::write(&out, text).unwrap();
    std::process::exit(0);
}

pub struct Args {
    pub id: String,
    pub thorough: bool,
    pub seed: u64,
    pub replay: Option<(String, String)>, // suite, input
}

/// `<bin> <ID> <quick|thorough> <seed> <out.json>` or
/// `<bin> replay <ID> <suite> <file with the input>`
pub fn args() -> Args {
    let a: Vec<String> = std::env::args().collect();
    if std::env::var("KH_TRACE").is_err() {
        std::panic::set_hook(Box::new(|_| {}));
    }
    if a[1] == "replay" {
        OUT.set((a[2].clone(), "/dev/stdout".into(), "quick".into(), 0)).ok();
        let input = std::fs::read_to_string(&a[4]).unwrap();
        return Args { id: a[2].clone(), thorough: false, seed: 0,
                      replay: Some((a[3].clone(), input)) };
    }
    let seed = a[3].parse().unwrap_or(1);
    OUT.set((a[1].clone(), a[4].clone(), a[2].clone(), seed)).ok();
    Args { id: a[1].clone(), thorough: a[2] == "thorough", seed, replay: None }
}

pub struct Ctx {
    pub args: Args,
    pub rep: drive::Report,
}

use drive::Verdict;
use rng::Rng;

impl Ctx {
    pub fn new() -> Ctx {
        Ctx { args: args(), rep: drive::Report::new() }
    }
    /// `quick` cases, eight times as many in the thorough tier
    pub fn n(&self, quick: u64) -> u64 {
        if self.args.thorough { quick * 8 } else { quick }
    }
    pub fn rule(&self, s: &str) {
        self.rep.rules.lock().unwrap().push(s.into());
    }
    pub fn random(&self, suite: &str, total: u64,
                  make: &(dyn Fn(&mut Rng) -> String + Sync),
                  check: &(dyn Fn(&str) -> Verdict + Sync))
    {
        if self.replayed(suite, check) || self.failed() { return }
        drive::run(&self.rep, suite, self.args.seed, self.n(total), false,
                   &|_, r| Some(make(r)), check)
    }
    pub fn all(&self, suite: &str, total: u64,
               make: &(dyn Fn(u64) -> Option<String> + Sync),
               check: &(dyn Fn(&str) -> Verdict + Sync))
    {
        if self.replayed(suite, check) || self.failed() { return }
        drive::run(&self.rep, suite, self.args.seed, total, true,
                   &|k, _| make(k), check)
    }
    pub fn tokens(&self, suite: &str, pool: &[&str], len: usize,
                  wrap: (&str, &str),
                  check: &(dyn Fn(&str) -> Verdict + Sync))
    {
        let total = gen::count(pool, len);
        self.all(suite, total, &|k| {
            gen::nth(pool, len, k)
                .map(|t| format!("{}{}{}", wrap.0, t, wrap.1))
        }, check)
    }
    pub fn failed(&self) -> bool {
        !self.rep.failures.lock().unwrap().is_empty()
    }
    /// in replay mode: only the named suite, only the given input
    pub fn replayed(&self, suite: &str, check: &dyn Fn(&str) -> Verdict)
        -> bool
    {
        let Some((s, input)) = &self.args.replay else { return false };
        if s == suite {
            match check(input) {
                Verdict::Bad(w) => {
                    println!("REPRODUCED {}: {}", suite, w);
                    std::process::exit(1);
                }
                _ => {
                    println!("not reproduced");
                    std::process::exit(0);
                }
            }
        }
        true
    }
}
