//! Stateless exhaustive explorer: every execution is determined by a sequence of choices, and
//! every sequence of choices within the bounds of a section is executed exactly once, on the
//! real code, in lock step with a reference model.
use serde_json::{Value, json};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::{Condvar, Mutex};
use std::time::{Duration, Instant};

thread_local! {
    static LAST_PANIC: RefCell<Option<(String, String)>> = const { RefCell::new(None) };
    static CAUGHT: RefCell<u32> = const { RefCell::new(0) };
}

/// A failed check: `key` identifies the finding (matched against known_findings.jsonl), `msg` explains.
#[derive(Debug, Clone)]
pub struct Fail {
    pub key: String,
    pub msg: String,
}
pub type Res<T = ()> = Result<T, Fail>;

pub fn fail<T>(key: impl Into<String>, msg: impl Into<String>) -> Res<T> {
    Err(Fail { key: key.into(), msg: msg.into() })
}

#[macro_export]
macro_rules! chk {
    ($cond:expr, $key:expr, $($arg:tt)*) => {
        if !($cond) { return $crate::harness::fail($key, format!($($arg)*)); }
    };
}

/// Outcome of calling into the implementation.
#[derive(Debug, Clone)]
pub enum ImpErr {
    Err(String),
    Panic(String),
}
impl ImpErr {
    pub fn is_panic(&self) -> bool {
        matches!(self, ImpErr::Panic(_))
    }
    pub fn text(&self) -> String {
        match self {
            ImpErr::Err(e) => format!("Err({e})"),
            ImpErr::Panic(e) => format!("panic({e})"),
        }
    }
}

/// Call into the implementation; a panic is an outcome, not a crash of the harness.
pub fn imp<T, E: std::fmt::Display>(f: impl FnOnce() -> Result<T, E>) -> Result<T, ImpErr> {
    CAUGHT.with(|c| *c.borrow_mut() += 1);
    let r = catch_unwind(AssertUnwindSafe(f));
    CAUGHT.with(|c| *c.borrow_mut() -= 1);
    match r {
        Ok(Ok(v)) => Ok(v),
        Ok(Err(e)) => Err(ImpErr::Err(e.to_string())),
        Err(p) => {
            let lp = LAST_PANIC.with(|l| l.borrow_mut().take());
            let msg = match lp {
                Some((loc, m)) => format!("{m} @ {loc}"),
                None => p
                    .downcast_ref::<String>()
                    .cloned()
                    .or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string()))
                    .unwrap_or_else(|| "panic".into()),
            };
            Err(ImpErr::Panic(msg))
        }
    }
}

/// Full text of an error including its sources.
pub fn chain(e: &dyn std::error::Error) -> String {
    let mut s = e.to_string();
    let mut c = e.source();
    while let Some(x) = c {
        s.push_str(" <- ");
        s.push_str(&x.to_string());
        c = x.source();
    }
    s
}

pub fn hash_of<T: Hash>(t: &T) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

/// The source of all choices of one execution.
pub struct Ch {
    prefix: Vec<u16>,
    log: Vec<(u16, u16)>,
    pub states: Vec<u64>,
    pub transitions: u64,
    pub outcome: u64,
    pub impl_calls: u64,
    pub desc: String,
    pub vacuous: bool,
    soft: Option<Fail>,
    verbose: bool,
}

impl Ch {
    fn new(prefix: Vec<u16>, verbose: bool) -> Self {
        Ch {
            prefix,
            log: vec![],
            states: vec![],
            transitions: 0,
            outcome: 0,
            impl_calls: 0,
            desc: String::new(),
            vacuous: false,
            soft: None,
            verbose,
        }
    }
    /// Choose one of `n` alternatives.
    pub fn pick(&mut self, n: usize) -> usize {
        assert!(n > 0 && n < 60000, "bad choice width");
        let i = self.log.len();
        let c = if i < self.prefix.len() { self.prefix[i] as usize } else { 0 };
        if c >= n {
            panic!("ENGINE divergence while replaying a choice prefix: choice {c} of {n}");
        }
        self.log.push((c as u16, n as u16));
        c
    }
    /// Whether every choice but the first two was the plain one.
    pub fn plain(&self) -> bool {
        self.log.iter().skip(2).all(|c| c.0 == 0)
    }
    pub fn of<T: Clone>(&mut self, items: &[T]) -> T {
        let i = self.pick(items.len());
        items[i].clone()
    }
    pub fn flag(&mut self) -> bool {
        self.pick(2) == 1
    }
    /// `len` independent choices from `items`.
    pub fn seq<T: Clone>(&mut self, items: &[T], len: usize) -> Vec<T> {
        (0..len).map(|_| self.of(items)).collect()
    }
    /// A subset of 0..n.
    pub fn subset(&mut self, n: usize) -> Vec<usize> {
        (0..n).filter(|_| self.flag()).collect()
    }
    /// A permutation of 0..n.
    pub fn perm(&mut self, n: usize) -> Vec<usize> {
        let mut left: Vec<usize> = (0..n).collect();
        let mut out = vec![];
        while !left.is_empty() {
            let i = self.pick(left.len());
            out.push(left.remove(i));
        }
        out
    }
    /// Keep a failure without ending the execution: it is reported unless a later one ends it.
    pub fn soft(&mut self, r: Res) {
        if let Err(f) = r {
            self.soft.get_or_insert(f);
        }
    }
    pub fn is_soft(&self) -> bool {
        self.soft.is_some()
    }
    /// Record a reached model state (hash of its canonical form) via one transition.
    pub fn state<T: Hash>(&mut self, s: &T) {
        self.states.push(hash_of(s));
        self.transitions += 1;
    }
    pub fn out<T: Hash>(&mut self, s: &T) {
        self.outcome = hash_of(&(self.outcome, hash_of(s)));
    }
    pub fn describe(&mut self, f: impl FnOnce() -> String) {
        self.desc = f();
        if self.verbose {
            eprintln!("[trace] {}", self.desc);
        }
    }
    pub fn note(&self, f: impl FnOnce() -> String) {
        if self.verbose {
            eprintln!("[trace]   {}", f());
        }
    }
    /// The configuration is outside the property's scope (counted separately).
    pub fn skip(&mut self) -> Res {
        self.vacuous = true;
        Ok(())
    }
}

#[derive(Default, Clone)]
struct SectionStats {
    executions: u64,
    vacuous: u64,
    states: u64,
    transitions: u64,
    outcomes: u64,
    complete: bool,
    wall: f64,
    samples: Vec<Value>,
}

#[derive(Clone)]
pub struct Violation {
    pub section: String,
    pub choices: Vec<u16>,
    pub key: String,
    pub msg: String,
    pub desc: String,
}

pub struct Cx {
    pub id: String,
    pub thorough: bool,
    pub seed: u64,
    pub start: Instant,
    pub threads: usize,
    replay: Option<(String, Vec<u16>)>,
    only: Option<String>,
    sections: Mutex<BTreeMap<String, SectionStats>>,
    order: Mutex<Vec<String>>,
    violations: Mutex<Vec<Violation>>,
    known: Vec<(String, String)>,
    known_hit: Mutex<BTreeMap<String, u64>>,
    engine_errors: Mutex<Vec<String>>,
    budget: f64,
    pub assumptions: Mutex<Vec<String>>,
}

struct Shared {
    stack: Mutex<(Vec<Vec<u16>>, usize)>,
    cv: Condvar,
    states: Vec<Mutex<HashSet<u64>>>,
    outcomes: Vec<Mutex<HashSet<u64>>>,
    executions: AtomicU64,
    vacuous: AtomicU64,
    transitions: AtomicU64,
    stop: AtomicBool,
    capped: AtomicBool,
}

const SHARDS: usize = 32;
static WATCH: Mutex<Vec<Option<(Instant, String, Vec<u16>)>>> = Mutex::new(Vec::new());
static PROGRESS: AtomicUsize = AtomicUsize::new(0);

impl Cx {
    pub fn new(id: &str, replay: Option<(String, Vec<u16>)>) -> Self {
        let thorough = std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false);
        let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
        let mut known = vec![];
        let kf = format!("{}/known_findings.jsonl", verif_dir());
        if let Ok(t) = std::fs::read_to_string(&kf) {
            for l in t.lines().filter(|l| !l.trim().is_empty()) {
                let v: Value = serde_json::from_str(l).expect("known_findings.jsonl is not valid");
                if v["status"] == "known" && v["property"] == id {
                    known.push((v["key"].as_str().unwrap().to_string(), v["what"].as_str().unwrap_or("").to_string()));
                }
            }
        }
        let budget = std::env::var("PV_BUDGET").ok().and_then(|s| s.parse().ok()).unwrap_or(if thorough { 20000.0 } else { 600.0 });
        Cx {
            id: id.to_string(),
            thorough,
            seed,
            start: Instant::now(),
            threads: std::env::var("PV_THREADS")
                .ok()
                .and_then(|s| s.parse().ok())
                .unwrap_or_else(|| std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4)),
            replay,
            only: std::env::var("PV_ONLY").ok(),
            sections: Default::default(),
            order: Default::default(),
            violations: Default::default(),
            known,
            known_hit: Default::default(),
            engine_errors: Default::default(),
            budget,
            assumptions: Default::default(),
        }
    }

    /// Bound selector: quick tier or thorough tier.
    pub fn b<T>(&self, quick: T, thorough: T) -> T {
        if self.thorough { thorough } else { quick }
    }

    pub fn assume(&self, s: &str) {
        self.assumptions.lock().unwrap().push(s.to_string());
    }

    fn run_one(&self, section: &str, prefix: Vec<u16>, f: &(dyn Fn(&mut Ch) -> Res + Sync), verbose: bool) -> (Ch, Option<Fail>) {
        let mut ch = Ch::new(prefix, verbose);
        let r = catch_unwind(AssertUnwindSafe(|| f(&mut ch)));
        let f = match r {
            Ok(Ok(())) => ch.soft.take(),
            Ok(Err(f)) => Some(f),
            Err(_) => {
                let (loc, m) = LAST_PANIC.with(|l| l.borrow_mut().take()).unwrap_or_default();
                if loc.contains("/repo/") || loc.contains("/registry/") || loc.contains("/crates/") {
                    Some(Fail { key: format!("panic:{}", loc.split(':').next().unwrap_or("")), msg: format!("panic in the implementation: {m} @ {loc}") })
                } else {
                    self.engine_errors.lock().unwrap().push(format!("{section}: harness panic {m} @ {loc} choices {:?} [{}]", ch.log.iter().map(|x| x.0).collect::<Vec<_>>(), ch.desc));
                    None
                }
            }
        };
        (ch, f)
    }

    fn is_known(&self, key: &str) -> bool {
        self.known.iter().any(|(k, _)| k == key)
    }

    /// Explore every choice sequence of `f`.
    pub fn explore(&self, section: &str, f: impl Fn(&mut Ch) -> Res + Sync) {
        if let Some((s, choices)) = &self.replay {
            if s == section {
                let (ch, fl) = self.run_one(section, choices.clone(), &f, true);
                println!("replayed {} {} choices={:?}", self.id, section, ch.log.iter().map(|c| c.0).collect::<Vec<_>>());
                println!("{}", ch.desc);
                if let Some(fl) = fl {
                    println!("FAIL key={} {}", fl.key, fl.msg);
                    self.violations.lock().unwrap().push(Violation { section: section.into(), choices: choices.clone(), key: fl.key, msg: fl.msg, desc: ch.desc });
                } else {
                    println!("no failure");
                }
            }
            return;
        }
        if let Some(o) = &self.only {
            if !section.contains(o.as_str()) {
                return;
            }
        }
        let t0 = Instant::now();
        let sh = Shared {
            stack: Mutex::new((vec![vec![]], 0)),
            cv: Condvar::new(),
            states: (0..SHARDS).map(|_| Default::default()).collect(),
            outcomes: (0..SHARDS).map(|_| Default::default()).collect(),
            executions: AtomicU64::new(0),
            vacuous: AtomicU64::new(0),
            transitions: AtomicU64::new(0),
            stop: AtomicBool::new(false),
            capped: AtomicBool::new(false),
        };
        let samples: Mutex<Vec<Value>> = Mutex::new(vec![]);
        let found: Mutex<Vec<Violation>> = Mutex::new(vec![]);
        let found_keys: Mutex<BTreeMap<String, u64>> = Mutex::new(BTreeMap::new());
        std::thread::scope(|sc| {
            for w in 0..self.threads {
                let (sh, f, samples, found, found_keys) = (&sh, &f, &samples, &found, &found_keys);
                std::thread::Builder::new()
                    .stack_size(16 << 20)
                    .spawn_scoped(sc, move || {
                        loop {
                            let prefix = {
                                let mut g = sh.stack.lock().unwrap();
                                loop {
                                    if sh.stop.load(Ordering::Relaxed) {
                                        return;
                                    }
                                    if let Some(p) = g.0.pop() {
                                        g.1 += 1;
                                        break p;
                                    }
                                    if g.1 == 0 {
                                        sh.cv.notify_all();
                                        return;
                                    }
                                    g = sh.cv.wait(g).unwrap();
                                }
                            };
                            let plen = prefix.len();
                            watch(w, Some((section.to_string(), prefix.clone())));
                            let (ch, fl) = self.run_one(section, prefix, f, false);
                            watch(w, None);
                            PROGRESS.fetch_add(1, Ordering::Relaxed);
                            let n = sh.executions.fetch_add(1, Ordering::Relaxed);
                            if ch.vacuous {
                                sh.vacuous.fetch_add(1, Ordering::Relaxed);
                            }
                            sh.transitions.fetch_add(ch.transitions, Ordering::Relaxed);
                            for s in &ch.states {
                                sh.states[(*s as usize) % SHARDS].lock().unwrap().insert(*s);
                            }
                            sh.outcomes[(ch.outcome as usize) % SHARDS].lock().unwrap().insert(ch.outcome);
                            let mut next = vec![];
                            let choices: Vec<u16> = ch.log.iter().map(|c| c.0).collect();
                            for i in plen..ch.log.len() {
                                for alt in 1..ch.log[i].1 {
                                    let mut p = choices[..i].to_vec();
                                    p.push(alt);
                                    next.push(p);
                                }
                            }
                            next.reverse();
                            if !ch.vacuous && (n < 2 || (n.is_power_of_two() && n >= 64)) {
                                let mut s = samples.lock().unwrap();
                                if s.len() < 4 {
                                    s.push(json!({"section": section, "choices": choices, "case": ch.desc}));
                                }
                            }
                            if let Some(fl) = fl {
                                if self.is_known(&fl.key) {
                                    *self.known_hit.lock().unwrap().entry(fl.key.clone()).or_insert(0) += 1;
                                } else {
                                    let first = {
                                        let mut k = found_keys.lock().unwrap();
                                        let c = k.entry(fl.key.clone()).or_insert(0);
                                        *c += 1;
                                        *c == 1
                                    };
                                    if first {
                                        // the same choices must fail again before anything is reported
                                        let mut rep = false;
                                        for _ in 0..20 {
                                            let (_, f2) = self.run_one(section, choices.clone(), f, false);
                                            if f2.is_some() {
                                                rep = true;
                                                break;
                                            }
                                        }
                                        if rep {
                                            found.lock().unwrap().push(Violation { section: section.into(), choices: choices.clone(), key: fl.key, msg: fl.msg, desc: ch.desc.clone() });
                                        } else {
                                            self.engine_errors.lock().unwrap().push(format!("{section}: failure did not reproduce: {} {} choices {choices:?}", fl.key, fl.msg));
                                        }
                                    }
                                    let cap = if std::env::var("PV_ALL").is_ok() { usize::MAX } else { 12 };
                                    if found.lock().unwrap().len() >= cap {
                                        sh.stop.store(true, Ordering::Relaxed);
                                        sh.capped.store(true, Ordering::Relaxed);
                                    }
                                }
                            }
                            if n % 64 == 0 && self.start.elapsed().as_secs_f64() > self.budget {
                                sh.stop.store(true, Ordering::Relaxed);
                                sh.capped.store(true, Ordering::Relaxed);
                            }
                            let mut g = sh.stack.lock().unwrap();
                            g.1 -= 1;
                            g.0.extend(next);
                            drop(g);
                            sh.cv.notify_all();
                        }
                    })
                    .unwrap();
            }
        });
        let st = SectionStats {
            executions: sh.executions.load(Ordering::Relaxed),
            vacuous: sh.vacuous.load(Ordering::Relaxed),
            states: sh.states.iter().map(|s| s.lock().unwrap().len() as u64).sum(),
            transitions: sh.transitions.load(Ordering::Relaxed),
            outcomes: sh.outcomes.iter().map(|s| s.lock().unwrap().len() as u64).sum(),
            complete: !sh.capped.load(Ordering::Relaxed),
            wall: t0.elapsed().as_secs_f64(),
            samples: samples.into_inner().unwrap(),
        };
        eprintln!(
            "{} {:<34} executions={} (out of scope {}) states={} transitions={} outcomes={} complete={} {:.1}s",
            self.id, section, st.executions, st.vacuous, st.states, st.transitions, st.outcomes, st.complete, st.wall
        );
        let keys = found_keys.into_inner().unwrap();
        let mut fv = found.into_inner().unwrap();
        fv.sort_by(|a, b| (a.choices.len(), &a.choices).cmp(&(b.choices.len(), &b.choices)));
        for v in fv.iter().take(if std::env::var("PV_ALL").is_ok() { 10000 } else { 6 }) {
            eprintln!("  FAIL x{} key={} {}\n       case: {}", keys.get(&v.key).unwrap_or(&0), v.key, v.msg, v.desc);
        }
        self.violations.lock().unwrap().extend(fv);
        assert!(self.sections.lock().unwrap().insert(section.to_string(), st).is_none(), "duplicate section {section}");
        self.order.lock().unwrap().push(section.to_string());
    }

    /// Write evidence, print verdict lines, and return the exit code.
    pub fn finish(&self) -> i32 {
        let errs = self.engine_errors.lock().unwrap().clone();
        let viol = self.violations.lock().unwrap().clone();
        if self.replay.is_some() {
            for e in &errs {
                eprintln!("ENGINE ERROR {e}");
            }
            return if !errs.is_empty() { 3 } else if viol.is_empty() { 0 } else { 1 };
        }
        for (k, what) in &self.known {
            if let Some(n) = self.known_hit.lock().unwrap().get(k) {
                println!("KNOWN-FINDING: property={} {} [{}; {} executions]", self.id, what, k, n);
            }
        }
        let secs = self.sections.lock().unwrap();
        let (mut ex, mut st, mut tr, mut oc, mut vac, mut complete) = (0, 0, 0, 0, 0, true);
        let mut samples = vec![];
        let mut parts = serde_json::Map::new();
        for name in self.order.lock().unwrap().iter() {
            let s = &secs[name];
            ex += s.executions;
            st += s.states;
            tr += s.transitions;
            oc += s.outcomes;
            vac += s.vacuous;
            complete &= s.complete;
            for x in &s.samples {
                if samples.len() < 40 {
                    samples.push(x.clone());
                }
            }
            parts.insert(
                name.clone(),
                json!({"executions": s.executions, "out_of_scope": s.vacuous, "states": s.states, "transitions": s.transitions,
                       "distinct_outcomes": s.outcomes, "complete": s.complete, "wall_s": s.wall}),
            );
        }
        let ev = json!({
            "property": self.id,
            "tier": if self.thorough {"thorough"} else {"quick"},
            "seed": self.seed,
            "level": "model_checking",
            "coverage": {
                "states": st, "transitions": tr, "traces_validated_against_impl": ex - vac,
                "distinct_outcomes": oc, "executions": ex, "executions_out_of_scope": vac,
                "exhaustive": complete && !secs.is_empty(),
                "sections": parts,
                "samples": samples,
                "known_findings_hit": self.known_hit.lock().unwrap().clone(),
            },
            "assumptions": self.assumptions.lock().unwrap().clone(),
            "wall_s": self.start.elapsed().as_secs_f64(),
            "violations": viol.len(),
        });
        let dir = format!("{}/evidence", verif_dir());
        let _ = std::fs::create_dir_all(format!("{dir}/replay"));
        std::fs::write(format!("{dir}/{}.json", self.id), serde_json::to_string_pretty(&ev).unwrap()).expect("cannot write evidence");
        let mut code = 0;
        for (i, v) in viol.iter().enumerate() {
            let path = format!("{dir}/replay/{}-{}.json", self.id, i);
            let body = json!({"property": self.id, "section": v.section, "choices": v.choices, "key": v.key, "msg": v.msg, "case": v.desc,
                "replay": format!("VERIF_TIER={} tools/check.sh {} --replay {}", if self.thorough {"thorough"} else {"quick"}, self.id, path)});
            let _ = std::fs::write(&path, serde_json::to_string_pretty(&body).unwrap());
            println!("VIOLATION property={} replay={}", self.id, path);
            println!("  {} :: {} :: {}", v.section, v.key, v.msg);
            code = 1;
        }
        if code == 0 && (!errs.is_empty() || ex == vac) {
            for e in errs.iter().take(5) {
                eprintln!("ENGINE ERROR {e}");
            }
            if ex == vac {
                eprintln!("ENGINE ERROR nothing was explored");
            }
            code = 3;
        }
        eprintln!("{} total executions={ex} states={st} transitions={tr} violations={} wall={:.1}s", self.id, viol.len(), self.start.elapsed().as_secs_f64());
        code
    }
}

pub fn verif_dir() -> String {
    std::env::var("PV_VERIF").unwrap_or_else(|_| "/verif".into())
}

fn watch(w: usize, what: Option<(String, Vec<u16>)>) {
    let mut g = WATCH.lock().unwrap();
    if g.len() <= w {
        g.resize(w + 1, None);
    }
    g[w] = what.map(|(s, p)| (Instant::now(), s, p));
}

/// Report an execution that does not terminate (normal ones take milliseconds).
pub fn start_watchdog(id: &str) {
    let id = id.to_string();
    std::thread::spawn(move || {
        loop {
            std::thread::sleep(Duration::from_millis(100));
            // (memory in pages)
            let rss = std::fs::read_to_string("/proc/self/statm").ok().and_then(|s| s.split(' ').nth(1)?.parse::<u64>().ok()).unwrap_or(0) * 4096;
            let g = WATCH.lock().unwrap();
            let oldest = g.iter().flatten().max_by_key(|e| e.0.elapsed());
            let Some(e) = oldest else { continue };
            let why = if e.0.elapsed() > Duration::from_secs(240) {
                "execution did not terminate within 240 s"
            } else if rss > 9 << 30 && e.0.elapsed() > Duration::from_secs(2) {
                // every execution is small; one that goes on while the memory of the process grows without bound does not end
                "execution used memory without bound"
            } else {
                continue;
            };
            let dir = format!("{}/evidence/replay", verif_dir());
            let _ = std::fs::create_dir_all(&dir);
            let path = format!("{dir}/{id}-hang.json");
            let _ = std::fs::write(&path, json!({"property": id, "section": e.1, "choices": e.2, "msg": why}).to_string());
            println!("VIOLATION property={id} replay={path}");
            println!("  {} :: hang :: {why}", e.1);
            std::process::exit(1);
        }
    });
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let m = info
            .payload()
            .downcast_ref::<String>()
            .cloned()
            .or_else(|| info.payload().downcast_ref::<&str>().map(|s| s.to_string()))
            .unwrap_or_default();
        if std::env::var("PV_PANIC").is_ok() {
            eprintln!("panic {m} @ {loc}");
        }
        LAST_PANIC.with(|l| *l.borrow_mut() = Some((loc, m)));
    }));
}
