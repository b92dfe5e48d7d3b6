//! Stateless explorer: depth-first enumeration of all choice sequences.
use alloc::string::String;
use alloc::vec::Vec;

/// What went wrong in one execution.
#[derive(Clone, Debug)]
pub struct Viol {
    pub msg: String,
    /// Identifies a failure that may be listed as a known finding.
    pub key: String,
}

pub type Res = Result<(), Viol>;

#[macro_export]
macro_rules! viol {
    ($($a:tt)*) => { return Err($crate::eng::explore::Viol { msg: alloc::format!($($a)*), key: Default::default() }) };
}

/// Counters, measured.
#[derive(Clone, Debug, Default)]
pub struct Stats {
    /// Nodes of the choice tree visited for the first time.
    pub states: u64,
    /// Environment answers served to the real code (bytes slices read, types resolved, operations applied).
    pub transitions: u64,
    /// Complete executions of the real code compared with the reference.
    pub traces: u64,
    /// Complete choice sequences (paths through the tree).
    pub paths: u64,
    /// Of the traces, how many delivered a value (not an error).
    pub accepted: u64,
    /// Paths skipped since they fall into a listed known finding (resource blow-up).
    pub skipped: u64,
    /// Fault runs: single-fault runs whose parse reported an error / stayed identical.
    pub faults: u64,
    /// Sets of distinct outcomes (hashes), bounded.
    pub outcomes: alloc::collections::BTreeSet<u64>,
    /// Order independent digest of all outcomes.
    pub digest: u64,
    /// Results in full, if asked for.
    pub log: Vec<String>,
    /// A failure that may be listed as a known finding: what else the path holds is explored first.
    pub aside: Option<Viol>,
}
/// Results are written out in full.
pub static WANT_LOG: core::sync::atomic::AtomicBool = core::sync::atomic::AtomicBool::new(false);
pub fn want_log() -> bool {
    WANT_LOG.load(core::sync::atomic::Ordering::Relaxed)
}

impl Stats {
    pub fn add(&mut self, o: &Stats) {
        self.states += o.states;
        self.transitions += o.transitions;
        self.traces += o.traces;
        self.paths += o.paths;
        self.accepted += o.accepted;
        self.skipped += o.skipped;
        self.faults += o.faults;
        self.digest = self.digest.wrapping_add(o.digest);
        if self.outcomes.len() < 1_000_000 {
            self.outcomes.extend(o.outcomes.iter().copied());
        }
        self.log.extend(o.log.iter().cloned());
        if self.aside.is_none() {
            self.aside = o.aside.clone();
        }
    }
    pub fn outcome(&mut self, h: u64) {
        if self.outcomes.len() < 100_000 {
            self.outcomes.insert(h);
        }
    }
}

/// One execution: replays `prefix`, then takes alternative 0 everywhere.
pub struct Ctx {
    prefix: Vec<(u32, u32)>,
    pub trace: Vec<(u32, u32)>,
    /// Remaining deviations from the default answer.
    pub dev_left: u32,
    pub stats: Stats,
    pub notes: Vec<String>,
    pub want_notes: bool,
    pub thorough: bool,
    pub depth_limit: usize,
}

impl Ctx {
    pub fn new(prefix: Vec<(u32, u32)>, thorough: bool) -> Self {
        Ctx {
            prefix,
            trace: Vec::new(),
            dev_left: 0,
            stats: Stats::default(),
            notes: Vec::new(),
            want_notes: false,
            thorough,
            depth_limit: 4000,
        }
    }
    /// A choice among `n` alternatives.
    pub fn choose(&mut self, n: usize) -> usize {
        assert!(n > 0, "HARNESS: empty choice");
        if n == 1 {
            return 0;
        }
        let i = self.trace.len();
        if i >= self.depth_limit {
            return 0;
        }
        let c = if i < self.prefix.len() {
            let (c, m) = self.prefix[i];
            assert!(m == n as u32 || m == 0, "HARNESS: divergence while replaying choice {i}: {m} alternatives recorded, {n} now");
            assert!(c < n as u32, "HARNESS: replayed choice out of range");
            c
        } else {
            0
        };
        self.trace.push((c, n as u32));
        c as usize
    }
    /// A choice whose non-default alternatives cost one deviation each.
    pub fn choose_dev(&mut self, n: usize) -> usize {
        if self.dev_left == 0 {
            return 0;
        }
        let c = self.choose(n);
        if c != 0 {
            self.dev_left -= 1;
        }
        c
    }
    pub fn pick<'a, T>(&mut self, from: &'a [T]) -> &'a T {
        let c = self.choose(from.len());
        &from[c]
    }
    pub fn flag(&mut self) -> bool {
        self.choose(2) == 1
    }
    pub fn note(&mut self, f: impl FnOnce() -> String) {
        if self.want_notes {
            let s = f();
            self.notes.push(s);
        }
    }
}

pub type RunFn = dyn Fn(&mut Ctx) -> Res + Send + Sync;

/// A closed system: driver plus environment alphabet plus oracle.
pub struct Scenario {
    pub name: String,
    pub run: alloc::boxed::Box<RunFn>,
    /// Approximate weight class; 0 = cheap.
    pub bound: String,
}

impl Scenario {
    pub fn new(name: impl Into<String>, bound: impl Into<String>, run: impl Fn(&mut Ctx) -> Res + Send + Sync + 'static) -> Self {
        let run = move |ctx: &mut Ctx| {
            run(ctx)?;
            match ctx.stats.aside.take() {
                Some(v) => Err(v),
                None => Ok(()),
            }
        };
        Scenario { name: name.into(), run: alloc::boxed::Box::new(run), bound: bound.into() }
    }
}

/// Next prefix in depth-first order, keeping the first `keep` choices.
pub fn next_prefix(trace: &[(u32, u32)], keep: usize) -> Option<Vec<(u32, u32)>> {
    let mut i = trace.len();
    while i > keep {
        i -= 1;
        let (c, n) = trace[i];
        if c + 1 < n {
            let mut p = trace[..i].to_vec();
            p.push((c + 1, n));
            return Some(p);
        }
    }
    None
}
