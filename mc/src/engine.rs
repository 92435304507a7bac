//! Exhaustive enumeration engine: a check is a list of suites, a suite is a
//! finite, indexable space of cases.  Every case of every suite is executed on
//! the real code (no sampling); panics are caught, hangs are watched, and each
//! case is identified by (suite, index), so that any verdict can be replayed.

use std::cell::RefCell;
use std::collections::HashSet;
use std::fs::File;
use std::io::Write;
use std::os::unix::fs::FileExt;
use std::panic::{self, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub type R = Result<(), String>;

#[derive(Clone, Copy, PartialEq)]
pub enum Tier { Quick, Thorough, Deep }

impl Tier {
    pub fn pick<T>(self, q: T, t: T) -> T { if self == Tier::Quick { q } else { t } }
    pub fn pick3<T>(self, q: T, t: T, d: T) -> T { match self { Tier::Quick => q, Tier::Thorough => t, Tier::Deep => d } }
}

/// Per-case context: counters of what really happened.
pub struct Ctx {
    /// API steps executed on the real code.
    pub steps: u64,
    /// Full observations compared with the reference model.
    pub compares: u64,
    distinct: HashSet<u64>,
    pub sample: Option<String>,
    want_sample: bool,
}

const DISTINCT_CAP: usize = 4_000_000;

impl Ctx {
    pub fn new() -> Self {
        Ctx { steps: 0, compares: 0, distinct: HashSet::new(), sample: None, want_sample: false }
    }
    pub fn step(&mut self, n: u64) { self.steps += n; }
    pub fn compared(&mut self) { self.compares += 1; }
    /// Registers an observed outcome / visited model state.
    pub fn outcome(&mut self, h: u64) {
        if self.distinct.len() < DISTINCT_CAP { self.distinct.insert(h); }
    }
    pub fn sample<F: FnOnce() -> String>(&mut self, f: F) {
        if self.want_sample { self.sample = Some(f()); }
    }
}

pub fn hash_str(s: &str) -> u64 {
    // FNV-1a with a finaliser; only used for counting distinct outcomes.
    let mut h: u64 = 0xcbf29ce484222325;
    for b in s.bytes() { h ^= b as u64; h = h.wrapping_mul(0x100000001b3); }
    h ^ (h >> 29)
}

pub struct Suite {
    pub name: String,
    pub about: String,
    pub count: u64,
    /// Number of model states behind the suite (0: counted by outcomes).
    pub states: u64,
    pub run: Box<dyn Fn(u64, &mut Ctx) -> R + Sync>,
    pub describe: Box<dyn Fn(u64) -> String + Sync>,
}

impl Suite {
    pub fn new<F, D>(name: &str, about: &str, count: u64, run: F, describe: D) -> Suite
        where F: Fn(u64, &mut Ctx) -> R + Sync + 'static,
              D: Fn(u64) -> String + Sync + 'static
    {
        Suite { name: name.into(), about: about.into(), count, states: 0,
            run: Box::new(run), describe: Box::new(describe) }
    }
}

thread_local! {
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

pub fn install_panic_hook() {
    panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() { (*s).to_string() }
            else if let Some(s) = info.payload().downcast_ref::<String>() { s.clone() }
            else { "panic".to_string() };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let _ = LAST_PANIC.try_with(|p| {
            if let Ok(mut p) = p.try_borrow_mut() { *p = format!("{} at {}", msg, loc); }
        });
    }));
}

/// Runs `f` on a thread with the stack of any other thread of a Rust program (2 MiB).
pub fn small_stack<F: FnOnce() -> R + Send>(f: F) -> R {
    std::thread::scope(|sc| {
        let t = std::thread::Builder::new().stack_size(2 << 20).spawn_scoped(sc, || guarded(f));
        match t.unwrap().join() { Ok(Ok(r)) => r, Ok(Err(e)) => Err(e), Err(_) => Err("the thread panicked".into()) }
    })
}

/// Runs `f`, turning a panic into an error text.
pub fn guarded<T, F: FnOnce() -> T>(f: F) -> Result<T, String> {
    match panic::catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => Err(LAST_PANIC.with(|p| format!("panicked: {}", p.borrow()))),
    }
}

pub fn run_case(s: &Suite, idx: u64, ctx: &mut Ctx) -> R {
    match guarded(|| (s.run)(idx, ctx)) {
        Ok(r) => r,
        Err(e) => Err(e),
    }
}

pub struct SuiteReport {
    pub name: String,
    pub about: String,
    pub cases: u64,
    pub states: u64,
    pub steps: u64,
    pub compares: u64,
    pub distinct: u64,
    pub wall: f64,
    pub samples: Vec<String>,
    pub complete: bool,
}

pub struct Failure {
    pub suite: String,
    pub idx: u64,
    pub desc: String,
    pub msg: String,
    pub kind: &'static str,
}

struct Slot { cur: AtomicU64, ticks: AtomicU64, busy: AtomicBool }

/// A recorded defect: the exact case that is known to fail.
pub struct Known { pub suite: String, pub desc: String, pub what: String }

/// Lines `known: property=<id> suite=<name> case=<text> fails: <what>`.
pub fn load_known(path: &str, prop: &str) -> Vec<Known> {
    let text = std::fs::read_to_string(path).unwrap_or_default();
    let head = format!("known: property={} suite=", prop);
    text.lines().filter_map(|l| {
        let rest = l.strip_prefix(head.as_str())?;
        let (suite, rest) = rest.split_once(" case=")?;
        let (desc, what) = rest.split_once(" fails: ")?;
        Some(Known { suite: suite.into(), desc: desc.into(), what: what.into() })
    }).collect()
}

pub fn run_suites(suites: &[Suite], threads: usize, trace_dir: Option<&str>, hang_s: u64, known: &[Known],
                  mut out: impl FnMut(&[SuiteReport], &[usize], Option<&Failure>)) -> Option<Failure>
{
    let seen_known: Mutex<Vec<usize>> = Mutex::new(Vec::new());
    let mut reports = Vec::new();
    for (si, s) in suites.iter().enumerate() {
        let start = Instant::now();
        let slots: Vec<Slot> = (0..threads).map(|_| Slot {
            cur: AtomicU64::new(0), ticks: AtomicU64::new(0), busy: AtomicBool::new(false) }).collect();
        let next = AtomicU64::new(0);
        let stop = AtomicBool::new(false);
        let done_threads = AtomicUsize::new(0);
        let failure: Mutex<Option<Failure>> = Mutex::new(None);
        let merged: Mutex<(u64, u64, u64, HashSet<u64>, Vec<(u64, String)>)> =
            Mutex::new((0, 0, 0, HashSet::new(), Vec::new()));
        let chunk = (s.count / (threads as u64 * 32)).max(1).min(4096);
        // written out samples: the first, the last and some evenly spaced cases
        let sample_at: Vec<u64> = (0..4u64).map(|k| k * s.count.saturating_sub(1) / 3).collect();

        std::thread::scope(|sc| {
            for t in 0..threads {
                let (slots, next, stop, failure, merged, done, sample_at, seen_known) =
                    (&slots, &next, &stop, &failure, &merged, &done_threads, &sample_at, &seen_known);
                let builder = std::thread::Builder::new().stack_size(16 << 20);
                builder.spawn_scoped(sc, move || {
                    let mut ctx = Ctx::new();
                    let mut cases = 0u64;
                    let mut samples = Vec::new();
                    let trace = trace_dir.map(|d| File::create(format!("{}/t{}", d, t)).unwrap());
                    'outer: loop {
                        let from = next.fetch_add(chunk, Ordering::Relaxed);
                        if from >= s.count { break; }
                        for idx in from..(from + chunk).min(s.count) {
                            if stop.load(Ordering::Relaxed) { break 'outer; }
                            slots[t].cur.store(idx, Ordering::Relaxed);
                            slots[t].ticks.fetch_add(1, Ordering::Relaxed);
                            slots[t].busy.store(true, Ordering::Relaxed);
                            if let Some(ref f) = trace {
                                let _ = f.write_all_at(format!("{:6} {:20}\n", si, idx).as_bytes(), 0);
                            }
                            ctx.want_sample = sample_at.contains(&idx);
                            ctx.sample = None;
                            let r = run_case(s, idx, &mut ctx);
                            slots[t].busy.store(false, Ordering::Relaxed);
                            cases += 1;
                            if ctx.want_sample {
                                let txt = ctx.sample.take().unwrap_or_else(|| (s.describe)(idx));
                                samples.push((idx, txt));
                            }
                            if let Err(msg) = r {
                                if known.iter().any(|k| k.suite == s.name) {
                                    let d = (s.describe)(idx);
                                    if let Some(k) = known.iter().position(|k| k.suite == s.name && k.desc == d) {
                                        seen_known.lock().unwrap().push(k);
                                        continue;
                                    }
                                }
                                let mut f = failure.lock().unwrap();
                                let better = match *f { Some(ref o) => idx < o.idx, None => true };
                                if better {
                                    let desc = guarded(|| (s.describe)(idx)).unwrap_or_else(|e| e);
                                    *f = Some(Failure { suite: s.name.clone(), idx, desc, msg, kind: "wrong" });
                                }
                                stop.store(true, Ordering::Relaxed);
                                break 'outer;
                            }
                        }
                    }
                    let mut m = merged.lock().unwrap();
                    m.0 += cases; m.1 += ctx.steps; m.2 += ctx.compares;
                    for h in ctx.distinct.drain() {
                        if m.3.len() >= DISTINCT_CAP { break; }
                        m.3.insert(h);
                    }
                    m.4.append(&mut samples);
                    drop(m);
                    done.fetch_add(1, Ordering::SeqCst);
                }).unwrap();
            }

            // The watchdog.
            let mut last: Vec<(u64, Instant)> = slots.iter().map(|_| (0, Instant::now())).collect();
            while done_threads.load(Ordering::SeqCst) < threads {
                std::thread::sleep(Duration::from_millis(if start.elapsed().as_millis() < 200 { 2 } else { 20 }));
                for (t, slot) in slots.iter().enumerate() {
                    let ticks = slot.ticks.load(Ordering::Relaxed);
                    if ticks != last[t].0 || !slot.busy.load(Ordering::Relaxed) {
                        last[t] = (ticks, Instant::now());
                    } else if last[t].1.elapsed().as_secs() >= hang_s {
                        let idx = slot.cur.load(Ordering::Relaxed);
                        let desc = guarded(|| (s.describe)(idx)).unwrap_or_else(|e| e);
                        let f = Failure { suite: s.name.clone(), idx, desc,
                            msg: format!("no answer within {} s", hang_s), kind: "hang" };
                        out(&reports, &seen_known.lock().unwrap(), Some(&f));
                        std::process::exit(3);
                    }
                }
            }
        });

        let (cases, steps, compares, distinct, mut samples) = merged.into_inner().unwrap();
        samples.sort();
        let fail = failure.into_inner().unwrap();
        reports.push(SuiteReport {
            name: s.name.clone(), about: s.about.clone(), cases, states: s.states,
            steps, compares, distinct: distinct.len() as u64,
            wall: start.elapsed().as_secs_f64(),
            samples: samples.into_iter().map(|(_, s)| s).collect(),
            complete: fail.is_none() && cases == s.count,
        });
        if let Some(f) = fail {
            out(&reports, &seen_known.lock().unwrap(), Some(&f));
            return Some(f);
        }
    }
    out(&reports, &seen_known.lock().unwrap(), None);
    None
}

pub fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            '\r' => o.push_str("\\r"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub fn write_report(path: &str, reports: &[SuiteReport], known: &[&Known], fail: Option<&Failure>) {
    let mut s = String::from("{\n \"suites\": [\n");
    for (i, r) in reports.iter().enumerate() {
        let samples: Vec<String> = r.samples.iter().map(|x| {
            let t: String = x.chars().take(1500).collect();
            json_str(&t)
        }).collect();
        s.push_str(&format!("  {{\"name\": {}, \"about\": {}, \"cases\": {}, \"states\": {}, \"steps\": {}, \
            \"compares\": {}, \"distinct\": {}, \"wall\": {:.3}, \"complete\": {}, \"samples\": [{}]}}{}\n",
            json_str(&r.name), json_str(&r.about), r.cases, r.states, r.steps, r.compares, r.distinct,
            r.wall, r.complete, samples.join(", "), if i + 1 < reports.len() { "," } else { "" }));
    }
    let k: Vec<String> = known.iter().map(|k| format!("{{\"suite\": {}, \"desc\": {}, \"what\": {}}}",
        json_str(&k.suite), json_str(&k.desc), json_str(&k.what))).collect();
    s.push_str(&format!(" ],\n \"known\": [{}],\n \"failure\": ", k.join(", ")));
    match fail {
        Some(f) => s.push_str(&format!("{{\"suite\": {}, \"idx\": {}, \"kind\": {}, \"desc\": {}, \"msg\": {}}}",
            json_str(&f.suite), f.idx, json_str(f.kind), json_str(&f.desc), json_str(&f.msg))),
        None => s.push_str("null"),
    }
    s.push_str("\n}\n");
    let mut f = File::create(path).unwrap();
    f.write_all(s.as_bytes()).unwrap();
}

/// 1..=dense, then around round numbers and powers of two up to `max`.
pub fn sizes(dense: usize, max: usize) -> Vec<usize> {
    let mut v: Vec<usize> = (1..=dense.min(max)).collect();
    let more = [15, 16, 17, 31, 32, 33, 50, 51, 63, 64, 65, 99, 100, 101, 127, 128, 129, 199, 200, 201, 255, 256, 257, 258, 499, 500, 501, 511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025, 1100,
        2047, 2048, 2049, 3000, 4095, 4096, 4097, 5000, 8193, 10_001, 16_385, 32_769, 65_535, 65_536, 65_537];
    v.extend(more.iter().cloned().filter(|&n| n > dense && n <= max));
    v
}
