//! Shared machinery of the checks: bookkeeping of an exhaustive exploration
//! (states, transitions, traces), known findings, replay files, evidence, a
//! depth-first choice explorer, and a tiny deterministic executor.

use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::future::Future;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::pin::Pin;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Wake, Waker};
use std::time::{Duration, Instant};

pub use serde_json::{json, Value};

pub fn verif_dir() -> std::path::PathBuf {
    std::env::var_os("VERIF_DIR")
        .map(Into::into)
        .unwrap_or_else(|| "/verif".into())
}

#[derive(Default)]
struct Inner {
    states: HashSet<u64>,
    state_overflow: u64,
    outcomes: BTreeMap<String, u64>,
    samples: Vec<Value>,
    sample_tags: BTreeSet<String>,
    violations: Vec<String>,
    known_hit: BTreeMap<String, String>,
    extra: BTreeMap<String, Value>,
    bounds: Vec<String>,
    caps: Vec<String>,
}

/// One run of one property's check.
pub struct Check {
    pub id: &'static str,
    pub thorough: bool,
    pub seed: u64,
    start: Instant,
    transitions: AtomicU64,
    traces: AtomicU64,
    cases: AtomicU64,
    progress: AtomicU64,
    nviol: AtomicUsize,
    inner: Mutex<Inner>,
    known: BTreeMap<String, String>,
    replay: Option<String>,
    assumptions: Mutex<Vec<String>>,
}

/// Many times what any check uses on a tree that is right, in 4 KiB pages.
const MAX_PAGES: u64 = 3 << 20;
pub const MAX_VIOLATIONS: usize = 12;

fn hash64<T: Hash + ?Sized>(t: &T) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

thread_local! {
    static QUIET: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}

/// Run `f`, turning a panic into its message, without printing a backtrace.
pub fn quietly<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    let was = QUIET.with(|q| q.replace(true));
    let r = catch_unwind(AssertUnwindSafe(f));
    QUIET.with(|q| q.set(was));
    r.map_err(|e| {
        if let Some(s) = e.downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = e.downcast_ref::<String>() {
            s.clone()
        } else {
            "panic with a non-string payload".to_string()
        }
    })
}

impl Check {
    pub fn new(id: &'static str) -> Arc<Check> {
        let prev = std::panic::take_hook();
        std::panic::set_hook(Box::new(move |i| {
            if !QUIET.with(|q| q.get()) {
                prev(i)
            }
        }));
        let thorough = std::env::var("VERIF_TIER").as_deref() == Ok("thorough");
        let seed = std::env::var("VERIF_SEED")
            .ok()
            .and_then(|s| s.parse().ok())
            .unwrap_or(1);
        let mut known = BTreeMap::new();
        if let Ok(text) = std::fs::read_to_string(verif_dir().join("known_findings.txt")) {
            // known: property=<id> case=<key, up to " -- "> -- <what fails>
            let want = format!("known: property={} case=", id);
            for l in text.lines() {
                if let Some(rest) = l.strip_prefix(&want) {
                    let (k, d) = rest.split_once(" -- ").unwrap_or((rest, ""));
                    known.insert(k.trim().to_string(), d.trim().to_string());
                }
            }
        }
        let mut args = std::env::args().skip_while(|a| a != "--replay");
        args.next();
        let replay = args.next().map(|p| {
            let v: Value = serde_json::from_str(&std::fs::read_to_string(&p).unwrap()).unwrap();
            v["case"].as_str().unwrap().to_string()
        });
        let c = Arc::new(Check {
            id,
            thorough,
            seed,
            start: Instant::now(),
            transitions: 0.into(),
            traces: 0.into(),
            cases: 0.into(),
            progress: 0.into(),
            nviol: 0.into(),
            inner: Default::default(),
            known,
            replay,
            assumptions: Default::default(),
        });
        // Watchdog: the code under test must not hang on any explored case,
        // nor use up the memory.
        let w = Arc::downgrade(&c);
        std::thread::spawn(move || {
            let mut last = (0, Instant::now());
            loop {
                std::thread::sleep(Duration::from_millis(100));
                let Some(c) = w.upgrade() else { return };
                let pages = std::fs::read_to_string("/proc/self/statm").ok().and_then(|s| s.split(' ').nth(1)?.parse::<u64>().ok());
                if pages.is_some_and(|p| p > MAX_PAGES) {
                    c.violation("memory", "an explored case uses memory without end", json!(pages));
                    c.finish_and_exit();
                }
                let p = c.progress.load(Ordering::Relaxed);
                if p != last.0 {
                    last = (p, Instant::now());
                } else if last.1.elapsed() > Duration::from_secs(150) {
                    c.violation("hang", "no explored case finished within 150 s", json!(p));
                    c.finish_and_exit();
                }
            }
        });
        c
    }

    pub fn tick(&self) {
        self.progress.fetch_add(1, Ordering::Relaxed);
    }

    pub fn stopped(&self) -> bool {
        self.nviol.load(Ordering::Relaxed) >= MAX_VIOLATIONS
    }

    pub fn failed(&self) -> bool {
        self.nviol.load(Ordering::Relaxed) > 0
    }

    pub fn is_replay(&self) -> bool {
        self.replay.is_some()
    }

    /// Record a model / implementation state (deduplicated by hash).
    pub fn state<T: Hash + ?Sized>(&self, t: &T) {
        let h = hash64(t);
        let mut i = self.inner.lock().unwrap();
        if i.states.len() < 40_000_000 {
            i.states.insert(h);
        } else {
            i.state_overflow += 1;
        }
    }
    pub fn trans(&self, n: u64) {
        self.transitions.fetch_add(n, Ordering::Relaxed);
    }
    /// One complete execution of the implementation was compared with the model.
    pub fn trace(&self) {
        self.traces.fetch_add(1, Ordering::Relaxed);
        self.tick();
    }
    /// Count an observed outcome class (vacuity is visible in the evidence).
    pub fn outcome(&self, k: &str) {
        let mut i = self.inner.lock().unwrap();
        if let Some(n) = i.outcomes.get_mut(k) {
            *n += 1
        } else {
            i.outcomes.insert(k.to_string(), 1);
        }
    }
    /// Keep at most one sample per tag.
    pub fn sample(&self, tag: &str, v: impl FnOnce() -> Value) {
        let mut i = self.inner.lock().unwrap();
        if i.samples.len() < 24 && !i.sample_tags.contains(tag) {
            i.sample_tags.insert(tag.to_string());
            i.samples.push(json!({"kind": tag, "case": v()}));
        }
    }
    pub fn bound(&self, s: impl Into<String>) {
        self.inner.lock().unwrap().bounds.push(s.into());
    }
    pub fn cap(&self, s: impl Into<String>) {
        self.inner.lock().unwrap().caps.push(s.into());
    }
    pub fn extra(&self, k: &str, v: Value) {
        self.inner.lock().unwrap().extra.insert(k.into(), v);
    }
    pub fn assume(&self, s: &str) {
        self.assumptions.lock().unwrap().push(s.into());
    }

    /// Run one case. `key` identifies the exact case; `body` returns Err with
    /// an explanation if the property is broken. A panic of the code under
    /// test is a violation as well.
    pub fn case(&self, key: impl Fn() -> String, body: impl FnOnce() -> Result<(), String>) {
        if self.stopped() {
            return;
        }
        if let Some(r) = &self.replay {
            if *r != key() {
                return;
            }
        }
        self.cases.fetch_add(1, Ordering::Relaxed);
        let r = quietly(body);
        self.trace();
        let msg = match r {
            Ok(Ok(())) => return,
            Ok(Err(e)) => e,
            Err(p) => format!("panicked: {p}"),
        };
        self.fail(&key(), &msg);
    }

    /// Hand what was covered over to the check that goes on from here.
    pub fn export(&self, path: &std::path::Path) {
        let i = self.inner.lock().unwrap();
        let v = json!({
            "states": i.states.iter().collect::<Vec<_>>(),
            "transitions": self.transitions.load(Ordering::Relaxed),
            "traces": self.traces.load(Ordering::Relaxed),
            "outcomes": i.outcomes, "samples": i.samples, "bounds": i.bounds, "caps": i.caps,
            "wall": self.start.elapsed().as_secs_f64(), "known": i.known_hit, "extra": i.extra, "assumptions": *self.assumptions.lock().unwrap(),
        });
        std::fs::write(path, v.to_string()).unwrap();
    }

    pub fn import(&self, path: &std::path::Path) {
        let Ok(t) = std::fs::read_to_string(path) else { return };
        let v: Value = serde_json::from_str(&t).unwrap();
        self.transitions.fetch_add(v["transitions"].as_u64().unwrap(), Ordering::Relaxed);
        self.traces.fetch_add(v["traces"].as_u64().unwrap(), Ordering::Relaxed);
        let mut i = self.inner.lock().unwrap();
        i.states.extend(v["states"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap()));
        for (k, n) in v["outcomes"].as_object().unwrap() {
            *i.outcomes.entry(k.clone()).or_default() += n.as_u64().unwrap();
        }
        i.samples.extend(v["samples"].as_array().unwrap().iter().cloned());
        let text = |k: &str| v[k].as_array().unwrap().iter().map(|x| x.as_str().unwrap().to_string()).collect::<Vec<_>>();
        i.bounds.extend(text("bounds"));
        i.caps.extend(text("caps"));
        for (k, d) in v["known"].as_object().unwrap() {
            i.known_hit.insert(k.clone(), d.as_str().unwrap().to_string());
        }
        for (k, x) in v["extra"].as_object().unwrap() {
            i.extra.insert(k.clone(), x.clone());
        }
        self.assumptions.lock().unwrap().extend(text("assumptions"));
        i.extra.insert("wall_s of the first part".into(), v["wall"].clone());
    }

    /// Report that case `key` breaks the property.
    pub fn fail(&self, key: &str, msg: &str) {
        if let Some(d) = self.known.get(key) {
            let mut i = self.inner.lock().unwrap();
            i.known_hit.insert(key.to_string(), d.clone());
            return;
        }
        self.violation(key, msg, Value::Null);
    }

    fn violation(&self, key: &str, msg: &str, detail: Value) {
        let n = self.nviol.fetch_add(1, Ordering::SeqCst);
        if n >= MAX_VIOLATIONS {
            return;
        }
        let dir = verif_dir().join("replays");
        let _ = std::fs::create_dir_all(&dir);
        let path = dir.join(format!("{}-{}.json", self.id, n));
        let _ = std::fs::write(
            &path,
            serde_json::to_string_pretty(&json!({
                "property": self.id, "case": key, "what": msg, "detail": detail,
                "how": format!("/verif/run {} --replay {}", self.id, path.display()),
            }))
            .unwrap(),
        );
        let shown: String = msg.chars().take(600).collect();
        println!("VIOLATION property={} replay={}", self.id, path.display());
        println!("  case: {}", key.chars().take(400).collect::<String>());
        println!("  what: {}", shown);
        self.inner.lock().unwrap().violations.push(key.to_string());
    }

    pub fn finish_and_exit(&self) -> ! {
        if let Some(p) = std::env::var_os("VERIF_HANDOVER") {
            // The first part of a check: the second one reports.
            if !self.failed() {
                let p = std::path::Path::new(&p);
                let _ = std::fs::create_dir_all(p.parent().unwrap());
                self.export(p);
                std::process::exit(0);
            }
        }
        let i = self.inner.lock().unwrap();
        for (k, d) in &i.known_hit {
            println!("KNOWN-FINDING: property={} case={} -- {}", self.id, k, d);
        }
        let nviol = self.nviol.load(Ordering::SeqCst);
        let states = i.states.len() as u64;
        let mut cov = serde_json::Map::new();
        cov.insert("states".into(), json!(states));
        cov.insert(
            "transitions".into(),
            json!(self.transitions.load(Ordering::Relaxed)),
        );
        cov.insert(
            "traces_validated_against_impl".into(),
            json!(self.traces.load(Ordering::Relaxed)),
        );
        cov.insert("samples".into(), json!(i.samples));
        cov.insert("outcomes".into(), json!(i.outcomes));
        cov.insert("bounds".into(), json!(i.bounds));
        cov.insert("caps_hit".into(), json!(i.caps));
        cov.insert(
            "exhaustive".into(),
            json!(i.caps.is_empty() && nviol == 0 && self.replay.is_none()),
        );
        cov.insert(
            "known_findings".into(),
            json!(i.known_hit.keys().collect::<Vec<_>>()),
        );
        for (k, v) in &i.extra {
            cov.insert(k.clone(), v.clone());
        }
        let ev = json!({
            "property": self.id,
            "tier": if self.thorough { "thorough" } else { "quick" },
            "seed": self.seed,
            "level": "model_checking",
            "coverage": cov,
            "assumptions": *self.assumptions.lock().unwrap(),
            "wall_s": self.start.elapsed().as_secs_f64(),
            "violations": nviol,
        });
        let traces = self.traces.load(Ordering::Relaxed);
        if self.replay.is_none() {
            let dir = verif_dir().join("evidence");
            let _ = std::fs::create_dir_all(&dir);
            std::fs::write(
                dir.join(format!("{}.json", self.id)),
                serde_json::to_string_pretty(&ev).unwrap() + "\n",
            )
            .expect("cannot write evidence");
        }
        println!(
            "{} {}: states={} transitions={} traces={} outcomes={:?} known={} violations={} {:.1}s",
            self.id,
            if self.thorough { "thorough" } else { "quick" },
            states,
            self.transitions.load(Ordering::Relaxed),
            traces,
            i.outcomes,
            i.known_hit.len(),
            nviol,
            self.start.elapsed().as_secs_f64()
        );
        if nviol > 0 {
            std::process::exit(1);
        }
        if traces == 0 {
            eprintln!("nothing was explored");
            std::process::exit(2);
        }
        std::process::exit(0);
    }
}

/// Stateless depth-first exploration: `f` asks for choices; every combination
/// is executed exactly once. Returns the number of executions.
pub struct Chooser {
    prefix: Vec<usize>,
    pub taken: Vec<(usize, usize)>,
}

impl Chooser {
    pub fn choose(&mut self, n: usize) -> usize {
        assert!(n > 0);
        if n == 1 {
            return 0;
        }
        let d = self.taken.len();
        let c = if d < self.prefix.len() {
            let c = self.prefix[d];
            assert!(c < n, "diverged while replaying a prefix");
            c
        } else {
            0
        };
        self.taken.push((c, n));
        c
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.choose(xs.len())]
    }
    pub fn flag(&mut self) -> bool {
        self.choose(2) == 1
    }
    pub fn path(&self) -> String {
        self.taken
            .iter()
            .map(|(c, _)| c.to_string())
            .collect::<Vec<_>>()
            .join(".")
    }
}

pub fn explore(c: &Check, mut f: impl FnMut(&mut Chooser)) -> u64 {
    let mut prefix = Vec::new();
    let mut n = 0;
    loop {
        let mut ch = Chooser {
            prefix: prefix.clone(),
            taken: vec![],
        };
        f(&mut ch);
        n += 1;
        c.trans(ch.taken.len() as u64);
        if c.stopped() {
            return n;
        }
        let mut t = ch.taken;
        loop {
            match t.pop() {
                None => return n,
                Some((k, m)) if k + 1 < m => {
                    prefix = t.iter().map(|x| x.0).collect();
                    prefix.push(k + 1);
                    break;
                }
                Some(_) => {}
            }
        }
    }
}

/// A waker that records whether it was woken.
#[derive(Default)]
pub struct Flag(pub AtomicBool);
impl Wake for Flag {
    fn wake(self: Arc<Self>) {
        self.0.store(true, Ordering::SeqCst)
    }
}

/// Poll to completion; each Pending must have been preceded by a wake-up
/// (otherwise the task would sleep forever). `max` bounds the polls.
pub fn run_ready<F: Future + ?Sized>(mut fut: Pin<&mut F>, max: usize) -> Result<F::Output, String> {
    let flag = Arc::new(Flag::default());
    let waker = Waker::from(flag.clone());
    let mut cx = Context::from_waker(&waker);
    for _ in 0..max {
        flag.0.store(false, Ordering::SeqCst);
        if let Poll::Ready(v) = fut.as_mut().poll(&mut cx) {
            return Ok(v);
        }
        if !flag.0.load(Ordering::SeqCst) {
            return Err("task is pending and nothing will wake it (lost wake-up)".into());
        }
    }
    Err(format!("not finished after {max} polls"))
}

/// Split `xs` over worker threads.
pub fn par<T: Sync>(xs: &[T], f: impl Fn(&T) + Sync) {
    let next = AtomicUsize::new(0);
    std::thread::scope(|s| {
        for _ in 0..8 {
            s.spawn(|| loop {
                let i = next.fetch_add(1, Ordering::Relaxed);
                if i >= xs.len() {
                    return;
                }
                f(&xs[i]);
            });
        }
    });
}

/// Independent percent-decoder.
pub fn pct_decode(s: &str) -> Result<Vec<u8>, String> {
    let b = s.as_bytes();
    let mut out = Vec::new();
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'%' {
            let h = |c: u8| (c as char).to_digit(16);
            match (b.get(i + 1).and_then(|c| h(*c)), b.get(i + 2).and_then(|c| h(*c))) {
                (Some(a), Some(c)) => {
                    out.push((a * 16 + c) as u8);
                    i += 3;
                }
                _ => return Err(format!("stray % in {s:?}")),
            }
        } else {
            out.push(b[i]);
            i += 1;
        }
    }
    Ok(out)
}

/// Independent application/x-www-form-urlencoded decoder.
pub fn form_decode(s: &str) -> Result<Vec<(String, String)>, String> {
    if s.is_empty() {
        return Ok(vec![]);
    }
    s.split('&')
        .map(|kv| {
            let (k, v) = kv.split_once('=').ok_or(format!("pair without '=' in {s:?}"))?;
            let d = |x: &str| {
                String::from_utf8(pct_decode(&x.replace('+', " "))?).map_err(|e| e.to_string())
            };
            Ok((d(k)?, d(v)?))
        })
        .collect()
}
