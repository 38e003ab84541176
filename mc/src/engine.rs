//! Exploration engine: deterministic parallel enumeration, violation capture,
//! replay, hang watchdog and coverage accounting.

use std::collections::{BTreeMap, HashSet};
use std::io::{Seek, SeekFrom, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::Relaxed};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

/// A case either holds or is a counterexample described by the message.
pub type Verdict = Result<(), String>;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    /// Reduced bounds, used for the build without assertions.
    Smoke,
    Quick,
    Thorough,
}

#[derive(Default)]
struct Totals {
    states: HashSet<u64>,
    transitions: u64,
    traces: u64,
    families: BTreeMap<String, u64>,
    extra: BTreeMap<String, u64>,
    samples: Vec<String>,
    violation: Option<(String, String, String)>,
}

/// Progress slot of one worker thread, read by the watchdog.
struct Slot {
    busy: AtomicBool,
    ticks: AtomicU64,
}

pub struct Ctx {
    pub id: &'static str,
    pub tier: Tier,
    pub threads: usize,
    replay: Option<(String, String)>,
    trace: Option<String>,
    out: String,
    totals: Mutex<Totals>,
    slots: Mutex<Vec<Arc<Slot>>>,
    pub stop: AtomicBool,
    hang: Duration,
    replay_hit: AtomicBool,
}

/// Per-thread recording of coverage.
pub struct Worker<'c> {
    ctx: &'c Ctx,
    slot: Arc<Slot>,
    family: String,
    trace: Option<std::fs::File>,
    states: HashSet<u64>,
    transitions: u64,
    traces: u64,
    cases: u64,
    extra: BTreeMap<&'static str, u64>,
    samples: Vec<String>,
}

pub fn hash64<T: std::hash::Hash + ?Sized>(t: &T) -> u64 {
    use std::hash::{BuildHasher, BuildHasherDefault};
    BuildHasherDefault::<std::collections::hash_map::DefaultHasher>::default().hash_one(t)
}

pub fn panic_msg(p: Box<dyn std::any::Any + Send>) -> String {
    if let Some(s) = p.downcast_ref::<&str>() {
        format!("panic: {s}")
    } else if let Some(s) = p.downcast_ref::<String>() {
        format!("panic: {s}")
    } else {
        "panic".into()
    }
}

/// Run and turn a panic into a counterexample.
pub fn guard<F: FnOnce() -> Verdict>(f: F) -> Verdict {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => v,
        Err(p) => Err(panic_msg(p)),
    }
}

impl Ctx {
    pub fn new(id: &'static str) -> Ctx {
        std::panic::set_hook(Box::new(|_| {}));
        let arg = |name: &str| -> Option<String> {
            let a: Vec<String> = std::env::args().collect();
            a.iter().position(|x| x == name).and_then(|i| a.get(i + 1).cloned())
        };
        let tier = match arg("--tier").as_deref() {
            Some("thorough") => Tier::Thorough,
            Some("smoke") => Tier::Smoke,
            _ => Tier::Quick,
        };
        let replay = arg("--replay").map(|f| {
            let s = std::fs::read_to_string(&f).expect("replay file");
            let mut fam = String::new();
            let mut case = String::new();
            for l in s.lines() {
                if let Some(x) = l.strip_prefix("family: ") {
                    fam = x.to_string();
                }
                if let Some(x) = l.strip_prefix("case: ") {
                    case = x.to_string();
                }
            }
            (fam, case)
        });
        let threads = arg("--threads").and_then(|s| s.parse().ok()).unwrap_or_else(|| {
            std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(8)
        });
        let hang = arg("--hang").and_then(|s| s.parse().ok()).unwrap_or(60);
        Ctx {
            id,
            tier,
            threads,
            replay,
            trace: arg("--trace"),
            out: arg("--out").unwrap_or_else(|| "/dev/stdout".into()),
            totals: Mutex::default(),
            slots: Mutex::default(),
            stop: AtomicBool::new(false),
            hang: Duration::from_secs(hang),
            replay_hit: AtomicBool::new(false),
        }
    }

    /// Pick a bound by tier.
    pub fn pick<T>(&self, smoke: T, quick: T, thorough: T) -> T {
        match self.tier {
            Tier::Smoke => smoke,
            Tier::Quick => quick,
            Tier::Thorough => thorough,
        }
    }

    /// Explore `n` work items of `family` in parallel.  When replaying, only the
    /// wanted family is entered, by `replay_fn` with the recorded case.
    pub fn explore<F, R>(&self, family: &str, n: u64, stack_mb: usize, threads: usize, work: F, replay_fn: R)
    where
        F: Fn(&mut Worker, u64) + Sync,
        R: Fn(&mut Worker, &str) + Sync,
    {
        if let Some((fam, case)) = &self.replay {
            if fam == family {
                self.replay_hit.store(true, Relaxed);
                let case = case.clone();
                self.spawn_workers(family, 1, stack_mb, |w| replay_fn(w, &case));
            }
            return;
        }
        if self.stop.load(Relaxed) {
            return;
        }
        let next = AtomicU64::new(0);
        let t0 = Instant::now();
        self.spawn_workers(family, threads.max(1), stack_mb, |w| loop {
            let i = next.fetch_add(1, Relaxed);
            if i >= n || self.stop.load(Relaxed) {
                break;
            }
            work(w, i);
        });
        if std::env::args().any(|a| a == "--verbose") {
            eprintln!("{family}: {:.2} s", t0.elapsed().as_secs_f64());
        }
    }

    fn spawn_workers<F>(&self, family: &str, threads: usize, stack_mb: usize, body: F)
    where
        F: Fn(&mut Worker) + Sync,
    {
        std::thread::scope(|s| {
            let done = Arc::new(AtomicBool::new(false));
            {
                let done = done.clone();
                s.spawn(move || self.watchdog(&done));
            }
            let handles: Vec<_> = (0..threads)
                .map(|t| {
                    let body = &body;
                    std::thread::Builder::new()
                        .stack_size(stack_mb << 20)
                        .spawn_scoped(s, move || {
                            let slot = Arc::new(Slot { busy: AtomicBool::new(false), ticks: AtomicU64::new(0) });
                            self.slots.lock().unwrap().push(slot.clone());
                            let trace = self.trace.as_ref().map(|d| {
                                std::fs::File::create(format!("{d}/{t}")).expect("trace file")
                            });
                            let mut w = Worker {
                                ctx: self,
                                slot,
                                family: family.to_string(),
                                trace,
                                states: HashSet::new(),
                                transitions: 0,
                                traces: 0,
                                cases: 0,
                                extra: BTreeMap::new(),
                                samples: vec![],
                            };
                            if let Err(p) = catch_unwind(AssertUnwindSafe(|| body(&mut w))) {
                                // A panic outside a guarded case is a harness error.
                                eprintln!("harness panic in {family}: {}", panic_msg(p));
                                std::process::exit(20);
                            }
                            w.flush();
                        })
                        .expect("spawn")
                })
                .collect();
            for h in handles {
                h.join().ok();
            }
            done.store(true, Relaxed);
        });
        self.slots.lock().unwrap().clear();
    }

    fn watchdog(&self, done: &AtomicBool) {
        let mut last: BTreeMap<usize, (u64, Instant)> = BTreeMap::new();
        while !done.load(Relaxed) {
            for _ in 0..20 {
                if done.load(Relaxed) {
                    return;
                }
                std::thread::sleep(Duration::from_millis(10));
            }
            for (i, s) in self.slots.lock().unwrap().iter().enumerate() {
                let t = s.ticks.load(Relaxed);
                let e = last.entry(i).or_insert((t, Instant::now()));
                if e.0 != t || !s.busy.load(Relaxed) {
                    *e = (t, Instant::now());
                } else if e.1.elapsed() > self.hang {
                    eprintln!("no progress for {:?} in one case", self.hang);
                    std::process::exit(11);
                }
            }
        }
    }

    pub fn report(&self, family: &str, case: String, msg: String) {
        self.stop.store(true, Relaxed);
        let mut t = self.totals.lock().unwrap();
        if t.violation.is_none() {
            t.violation = Some((family.to_string(), case, msg));
        }
    }

    pub fn add(&self, key: &str, v: u64) {
        *self.totals.lock().unwrap().extra.entry(key.to_string()).or_insert(0) += v;
    }

    /// Write the result file and exit.
    pub fn finish(self) -> ! {
        if self.replay.is_some() && !self.replay_hit.load(Relaxed) {
            eprintln!("replay: unknown family");
            std::process::exit(21);
        }
        let t = self.totals.into_inner().unwrap();
        let mut s = String::new();
        s.push_str(&format!(
            "{{\"states\":{},\"transitions\":{},\"traces\":{}",
            t.states.len(),
            t.transitions,
            t.traces
        ));
        s.push_str(",\"families\":{");
        s.push_str(&t.families.iter().map(|(k, v)| format!("{}:{v}", js(k))).collect::<Vec<_>>().join(","));
        s.push_str("},\"extra\":{");
        s.push_str(&t.extra.iter().map(|(k, v)| format!("{}:{v}", js(k))).collect::<Vec<_>>().join(","));
        s.push_str("},\"samples\":[");
        s.push_str(&t.samples.iter().map(|x| js(x)).collect::<Vec<_>>().join(","));
        s.push_str("]");
        if let Some((f, c, m)) = &t.violation {
            s.push_str(&format!(",\"violation\":{{\"family\":{},\"case\":{},\"msg\":{}}}", js(f), js(c), js(m)));
        }
        s.push_str("}\n");
        std::fs::write(&self.out, s).expect("write result");
        std::process::exit(if t.violation.is_some() { 10 } else { 0 });
    }
}

pub fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 0x20 || (c as u32) > 0x7e => {
                let mut b = [0u16; 2];
                for u in c.encode_utf16(&mut b) {
                    o.push_str(&format!("\\u{u:04x}"));
                }
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

impl Worker<'_> {
    /// Run one case.  `desc` must let the replay function rebuild it.
    pub fn case<D, F>(&mut self, desc: D, f: F)
    where
        D: Fn() -> String,
        F: FnOnce(&mut Tally) -> Verdict,
    {
        if let Some(t) = &mut self.trace {
            let line = format!("family: {}\ncase: {}\n", self.family, desc());
            t.seek(SeekFrom::Start(0)).ok();
            t.set_len(0).ok();
            t.write_all(line.as_bytes()).ok();
        }
        self.slot.ticks.fetch_add(1, Relaxed);
        self.slot.busy.store(true, Relaxed);
        let mut tally = Tally { state: None, steps: 0, traces: 0, extra: vec![], alive: Some(self.slot.clone()) };
        let v = guard(|| f(&mut tally));
        self.slot.busy.store(false, Relaxed);
        self.cases += 1;
        self.traces += tally.traces;
        self.transitions += tally.steps;
        for (k, n) in tally.extra {
            *self.extra.entry(k).or_insert(0) += n;
        }
        if let Some(h) = tally.state {
            let new = self.states.insert(h);
            // Keep a few written-out cases: the first ones with a new outcome.
            if new && self.samples.len() < 2 && self.cases > 40 && self.cases % 7 == 3 {
                let d = desc();
                self.samples.push(format!("{}: {}", self.family, clip(&d)));
            }
        }
        if let Err(m) = v {
            self.ctx.report(&self.family, desc(), m);
        }
    }

    pub fn stopped(&self) -> bool {
        self.ctx.stop.load(Relaxed)
    }

    pub fn tier(&self) -> Tier {
        self.ctx.tier
    }

    fn flush(mut self) {
        let mut t = self.ctx.totals.lock().unwrap();
        if t.states.is_empty() {
            t.states = std::mem::take(&mut self.states);
        } else {
            t.states.extend(self.states.drain());
        }
        t.transitions += self.transitions;
        t.traces += self.traces;
        *t.families.entry(self.family.clone()).or_insert(0) += self.cases;
        for (k, v) in &self.extra {
            *t.extra.entry(k.to_string()).or_insert(0) += v;
        }
        let mine = format!("{}: ", self.family);
        for s in self.samples.drain(..) {
            if t.samples.iter().filter(|x| x.starts_with(&mine)).count() < 2 {
                t.samples.push(s);
            }
        }
    }
}

fn clip(s: &str) -> String {
    if s.len() > 300 {
        let mut n = 300;
        while !s.is_char_boundary(n) {
            n -= 1;
        }
        format!("{}… ({} bytes)", &s[..n], s.len())
    } else {
        s.to_string()
    }
}

/// What one case contributes to coverage.
pub struct Tally {
    /// Hash of the abstract state/outcome reached.
    pub state: Option<u64>,
    /// Model/implementation steps compared.
    pub steps: u64,
    /// Executions of the implementation compared with the model.
    pub traces: u64,
    pub extra: Vec<(&'static str, u64)>,
    alive: Option<Arc<Slot>>,
}

impl Tally {
    pub fn scratch() -> Tally {
        Tally { state: None, steps: 0, traces: 0, extra: vec![], alive: None }
    }
    pub fn add(&mut self, k: &'static str, n: u64) {
        self.extra.push((k, n));
    }
    /// Tell the watchdog that a long case is still progressing.
    pub fn alive(&self) {
        if let Some(s) = &self.alive {
            s.ticks.fetch_add(1, Relaxed);
        }
    }
}

/// Encode text so that it survives in a one-line replay file.
pub fn enc(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        if c.is_ascii_alphanumeric() {
            o.push(c);
        } else {
            o.push_str(&format!("%{:x};", c as u32));
        }
    }
    o
}

pub fn dec(s: &str) -> String {
    let mut o = String::new();
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if c == '%' {
            let mut h = String::new();
            for d in it.by_ref() {
                if d == ';' {
                    break;
                }
                h.push(d);
            }
            o.push(char::from_u32(u32::from_str_radix(&h, 16).unwrap()).unwrap());
        } else {
            o.push(c);
        }
    }
    o
}
