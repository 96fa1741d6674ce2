use std::collections::HashSet;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::panic::{catch_unwind, AssertUnwindSafe};
use serde_json::{json, Value};

/// Collects what one run covered and the failures it found.
pub struct Report {
    pub evaluations: u64,
    distinct: HashSet<u64>,
    pub samples: Vec<Value>,
    pub failures: Vec<Value>,
    pub known: Vec<Value>,
    pub tier_thorough: bool,
    pub seed: u64,
    trace: Option<std::path::PathBuf>,
    began: std::time::Instant,
    pub skipped: u64,
}
static TICK: AtomicUsize = AtomicUsize::new(0);
/// Ends the process when one case runs for too long; the trace file names it.
fn watchdog() {
    std::thread::spawn(|| {
        let (mut last, mut same) = (0, 0);
        loop {
            std::thread::sleep(std::time::Duration::from_secs(1));
            let t = TICK.load(Ordering::SeqCst);
            if t == last { same += 1 } else { same = 0 }
            last = t;
            if same > 60 {
                eprintln!("a case hung");
                std::process::exit(97);
            }
        }
    });
}
fn h(s: &str) -> u64 {
    use std::hash::{Hash, Hasher};
    let mut x = std::collections::hash_map::DefaultHasher::new();
    s.hash(&mut x);
    x.finish()
}
impl Report {
    pub fn new(seed: u64, tier_thorough: bool) -> Self {
        watchdog();
        Report { trace: std::env::var_os("REPLAY_TRACE").map(|p| p.into()), evaluations: 0, distinct: HashSet::new(), samples: vec![], failures: vec![], known: vec![], tier_thorough, seed, began: std::time::Instant::now(), skipped: 0 }
    }
    pub fn n(&self, quick: usize, thorough: usize) -> usize {
        if self.tier_thorough { thorough } else { quick }
    }
    /// Runs one case. `f` returns Err(reason) when the property fails on `input`.
    pub fn case<F>(&mut self, what: &str, input: Value, f: F)
    where F: FnOnce() -> Result<(), String> {
        // on a machine this slow, report what was run
        if self.began.elapsed().as_secs() > if self.tier_thorough { 1300 } else { 170 } { self.skipped += 1; return; }
        self.evaluations += 1;
        let key = format!("{}{}", what, input);
        if self.distinct.insert(h(&key)) && self.samples.len() < 6 && (self.distinct.len() % 97 == 1) {
            self.samples.push(json!({"case": what, "input": input}));
        }
        if self.failures.len() >= 20 { return; }
        if let Some(ref t) = self.trace {
            let _ = std::fs::write(t, json!({"case": what, "input": input}).to_string());
        }
        TICK.fetch_add(1, Ordering::SeqCst);
        let r = catch_unwind(AssertUnwindSafe(f));
        let reason = match r {
            Ok(Ok(())) => return,
            Ok(Err(e)) => e,
            Err(p) => {
                let m = p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                format!("panic: {}", m)
            }
        };
        self.failures.push(json!({"case": what, "input": input, "reason": reason}));
    }
    pub fn known_finding(&mut self, id: &str, still_fails: bool, what: &str) {
        self.known.push(json!({"id": id, "still_fails": still_fails, "what": what}));
    }
    pub fn to_json(&self) -> Value {
        json!({"evaluations": self.evaluations, "distinct": self.distinct.len(), "samples": self.samples,
               "failures": self.failures, "known": self.known, "skipped_for_time": self.skipped})
    }
}
