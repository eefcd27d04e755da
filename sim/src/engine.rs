//! Runs, their outcomes, minimisation, replay files, and the parallel driver.
use crate::choice;
use crate::seam::{self, Fault};
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::BTreeSet;
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::*};
use std::time::Instant;

#[derive(Clone, Debug, PartialEq)]
pub struct Bad {
    /// Which clause of the property failed, in a form that is stable under minimisation.
    pub class: String,
    pub msg: String,
}
pub type Check<T = ()> = Result<T, Bad>;
pub fn bad<T>(class: impl Into<String>, msg: impl Into<String>) -> Check<T> {
    Err(Bad { class: class.into(), msg: msg.into() })
}
#[macro_export]
macro_rules! ensure {
    ($c:expr, $class:expr, $($a:tt)*) => {
        if !$c { return $crate::engine::bad($class, format!($($a)*)); }
    };
}

// ------------------------------------------------------------------------------------------------
// what a scenario notes while it runs

static TRACE_ON: AtomicBool = AtomicBool::new(false);
struct T(std::cell::UnsafeCell<Vec<String>>);
unsafe impl Sync for T {} // only the thread holding the baton notes
static TRACE: T = T(std::cell::UnsafeCell::new(vec![]));
pub fn tracing() -> bool {
    TRACE_ON.load(Relaxed)
}
pub fn note(s: impl FnOnce() -> String) {
    if tracing() {
        let _q = seam::Quiet::new();
        let s = s();
        unsafe { (*TRACE.0.get()).push(s) }
    }
}
/// Marks the run as one that met its faults or schedule while work was in flight.
static NONTRIVIAL: AtomicBool = AtomicBool::new(false);
pub fn nontrivial() {
    NONTRIVIAL.store(true, Relaxed);
}
/// "This rare condition was hit" counters.
static PROBES: std::sync::Mutex<std::collections::BTreeMap<&'static str, u64>> =
    std::sync::Mutex::new(std::collections::BTreeMap::new());
pub fn probe(name: &'static str) {
    let _q = seam::Quiet::new();
    *PROBES.lock().unwrap().entry(name).or_insert(0) += 1;
}

thread_local! {
    static PANIC: RefCell<Option<(String, String)>> = const { RefCell::new(None) };
    static IN_LIB: RefCell<Option<&'static str>> = const { RefCell::new(None) };
}
pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let _q = seam::Quiet::new();
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_default();
        let _ = PANIC.try_with(|p| *p.borrow_mut() = Some((loc, msg)));
    }));
}
pub fn take_panic() -> (String, String) {
    PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default()
}
fn short_file(loc: &str) -> String {
    // "src/drawing.rs:123" -> "src/drawing.rs": the line is not part of the class, so that an unrelated edit keeps it
    let f = loc.rsplit_once(':').map(|x| x.0).unwrap_or(loc);
    match f.rfind("/src/") {
        Some(i) => f[i + 1..].to_string(),
        None => f.to_string(),
    }
}
/// A call into the library: a panic inside it is a violation of whatever property is being checked.
pub fn lib<R>(what: &'static str, f: impl FnOnce() -> R) -> Check<R> {
    let old = IN_LIB.with(|l| l.borrow_mut().replace(what));
    seam::event(b'L', what.len() as u64, what.as_bytes()[0] as u64);
    let r = catch_unwind(AssertUnwindSafe(f));
    IN_LIB.with(|l| *l.borrow_mut() = old);
    match r {
        Ok(v) => Ok(v),
        Err(_) => {
            let (loc, msg) = take_panic();
            if msg.starts_with("SIMULATOR") {
                panic!("{}", msg);
            }
            let m: String = msg.chars().map(|c| if c.is_ascii_digit() { '#' } else { c }).take(60).collect();
            bad(
                format!("panic in {} at {}: {}", what, short_file(&loc), m),
                format!("{} panicked at {}: {}", what, loc, msg.chars().take(200).collect::<String>()),
            )
        }
    }
}

// ------------------------------------------------------------------------------------------------
// one run

#[derive(Clone)]
pub enum Source {
    Seed(u64),
    Choices(Vec<u64>),
}
pub struct Outcome {
    pub bad: Option<Bad>,
    pub harness_error: Option<String>,
    pub choices: Vec<u64>,
    pub hash: u64,
    pub events: u64,
    pub nontrivial: bool,
    pub simulated_ns: i128,
    pub trace: Vec<String>,
}
pub type Scenario = fn() -> Check;

pub fn run_seed(seed: u64, prop: &str, i: u64) -> u64 {
    let mut h = choice::fnv(choice::FNV0, prop.as_bytes());
    h = choice::fnv(h, &seed.to_le_bytes());
    h = choice::fnv(h, &i.to_le_bytes());
    choice::Rng::new(h).next()
}

/// Executes one simulated run on a thread of its own.  The outcome is a pure function of `src` and the code.
pub fn execute(scenario: Scenario, src: &Source, trace: bool, sink: i32) -> Outcome {
    match src {
        Source::Seed(s) => choice::start_random(*s, sink),
        Source::Choices(c) => choice::start_replay(c, sink),
    }
    TRACE_ON.store(trace, Relaxed);
    unsafe { (*TRACE.0.get()).clear() };
    NONTRIVIAL.store(false, Relaxed);
    let ns0 = seam::world().simulated_ns;
    let th = std::thread::Builder::new()
        .stack_size(8 << 20)
        .spawn(move || {
            seam::enter_sim();
            seam::reset_world(choice::subseed());
            seam::alloc_reset(3 << 30, 500_000_000);
            let r = catch_unwind(AssertUnwindSafe(scenario));
            seam::alloc_reset(u64::MAX, u64::MAX);
            let r = {
                let _q = seam::Quiet::new();
                match r {
                    Ok(Ok(())) => Ok(None),
                    Ok(Err(b)) => Ok(Some(b)),
                    Err(_) => {
                        let (l, m) = take_panic();
                        Err(format!("{} at {}", m, l))
                    }
                }
            };
            seam::leave_sim();
            r
        })
        .expect("SIMULATOR: cannot start a thread");
    let r = th.join().unwrap_or_else(|_| Err("the run's thread died".into()));
    let w = seam::world();
    let (bad, harness_error) = match r {
        Ok(b) => (b, None),
        Err(e) => (None, Some(e)),
    };
    Outcome {
        bad,
        harness_error,
        choices: choice::recorded(),
        hash: w.hash,
        events: w.events,
        nontrivial: NONTRIVIAL.load(Relaxed),
        simulated_ns: w.simulated_ns - ns0,
        trace: unsafe { std::mem::take(&mut *TRACE.0.get()) },
    }
}

// ------------------------------------------------------------------------------------------------
// minimisation: shrink the choice sequence while the same class of violation persists

/// `same(choices)` re-runs and returns the choices actually used when the same class of violation appears.
pub fn minimise(mut best: Vec<u64>, budget_runs: usize, budget_s: f64, same: &mut dyn FnMut(&[u64]) -> Option<Vec<u64>>) -> Vec<u64> {
    let t0 = Instant::now();
    let mut runs = 0;
    let mut attempt = |best: &mut Vec<u64>, cand: Vec<u64>| -> bool {
        if runs >= budget_runs || t0.elapsed().as_secs_f64() > budget_s {
            return false;
        }
        runs += 1;
        if let Some(mut used) = same(&cand) {
            while used.last() == Some(&0) {
                used.pop();
            }
            let smaller = used.len() < best.len() || (used.len() == best.len() && used.iter().sum::<u64>() < best.iter().sum::<u64>());
            if smaller {
                *best = used;
                return true;
            }
        }
        false
    };
    while best.last() == Some(&0) {
        best.pop();
    }
    for _round in 0..3 {
        let before = (best.len(), best.iter().fold(0u64, |a, b| a.wrapping_add(*b)));
        // remove runs of choices
        let mut size = (best.len() / 2).max(1);
        while size >= 1 {
            let mut i = 0;
            while i < best.len() {
                let mut c = best.clone();
                c.drain(i..(i + size).min(best.len()));
                if !attempt(&mut best, c) {
                    i += size;
                }
            }
            if size == 1 {
                break;
            }
            size /= 2;
        }
        // zero runs of choices
        let mut size = (best.len() / 2).max(1);
        while size >= 1 {
            let mut i = 0;
            while i < best.len() {
                let e = (i + size).min(best.len());
                if best[i..e].iter().any(|x| *x != 0) {
                    let mut c = best.clone();
                    c[i..e].iter_mut().for_each(|x| *x = 0);
                    attempt(&mut best, c);
                }
                i += size;
            }
            if size == 1 {
                break;
            }
            size /= 2;
        }
        // shrink single choices
        let mut i = 0;
        while i < best.len() {
            let mut lo = 0u64;
            let mut tries = 0;
            while i < best.len() && best[i] > lo && tries < 12 {
                tries += 1;
                let mid = lo + (best[i] - lo) / 2;
                let mut c = best.clone();
                c[i] = mid;
                if !attempt(&mut best, c) {
                    lo = mid + 1;
                }
            }
            i += 1;
        }
        if before == (best.len(), best.iter().fold(0u64, |a, b| a.wrapping_add(*b))) {
            break;
        }
    }
    best
}

// ------------------------------------------------------------------------------------------------
// known findings

pub struct Known {
    pub property: String,
    pub class: String,
    pub contains: String,
    pub what: String,
}
pub fn verif_dir() -> PathBuf {
    std::env::var("VERIF_DIR").map(PathBuf::from).unwrap_or_else(|_| PathBuf::from("/verif"))
}
pub fn load_known() -> Vec<Known> {
    let p = verif_dir().join("known_findings.json");
    let Ok(s) = std::fs::read_to_string(&p) else { return vec![] };
    let v: Value = serde_json::from_str(&s).expect("known_findings.json is not JSON");
    let mut out = vec![];
    for k in v["known"].as_array().into_iter().flatten() {
        let g = |n: &str| k[n].as_str().unwrap_or("").to_string();
        out.push(Known { property: g("property"), class: g("class"), contains: g("contains"), what: g("what") });
    }
    out
}
pub fn known_match(known: &[Known], prop: &str, b: &Bad) -> Option<usize> {
    known
        .iter()
        .position(|k| k.property == prop && !k.class.is_empty() && k.class == b.class && b.msg.contains(&k.contains))
}

// ------------------------------------------------------------------------------------------------
// the parallel driver

pub struct Prop {
    pub id: &'static str,
    pub run: Scenario,
    /// Runs per tier.
    pub quick: u64,
    pub thorough: u64,
    pub level: &'static str,
    pub rule: &'static str,
    pub real: &'static str,
    pub stub: &'static str,
}

/// Shared between the parent and its workers (a mapped file).
pub struct Shared {
    base: *mut AtomicU64,
}
const SLOTS: usize = 64;
impl Shared {
    pub fn map(path: &Path) -> Shared {
        let f = std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(false).open(path).expect("shared file");
        f.set_len((SLOTS * 8) as u64).expect("shared file size");
        use std::os::fd::AsRawFd;
        let p = unsafe {
            libc::mmap(std::ptr::null_mut(), SLOTS * 8, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED, f.as_raw_fd(), 0)
        };
        assert!(p != libc::MAP_FAILED);
        Shared { base: p as *mut AtomicU64 }
    }
    /// 0: lowest violating run (u64::MAX: none); 1: stop after this run count is irrelevant; 8+w: worker w's current run.
    pub fn at(&self, i: usize) -> &AtomicU64 {
        unsafe { &*self.base.add(i) }
    }
}

pub fn scratch() -> PathBuf {
    verif_dir().join("sim").join("target").join("runs")
}

/// The worker: executes its share of the runs.
pub fn worker(p: &Prop, seed: u64, shard: u64, of: u64, total: u64, dir: &Path, deadline_s: f64) -> i32 {
    let shared = Shared::map(&dir.join("shared"));
    let known = load_known();
    let t0 = Instant::now();
    let mut hashes: BTreeSet<u64> = BTreeSet::new();
    let (mut runs, mut events, mut nontriv, mut ns) = (0u64, 0u64, 0u64, 0i128);
    let mut known_hits: Vec<u64> = vec![0; known.len()];
    let mut samples: Vec<Value> = vec![];
    let mut digest: u64 = 0;
    let mut result = Value::Null;
    let mut i = shard + std::env::var("DXFSIM_FROM").ok().and_then(|s| s.parse::<u64>().ok()).unwrap_or(0);
    while i < total {
        if i > shared.at(0).load(SeqCst) || t0.elapsed().as_secs_f64() > deadline_s {
            break;
        }
        shared.at(8 + shard as usize).store(i + 1, SeqCst);
        arm_watchdog(if sweeping() { 10 } else { 120 });
        let s = run_seed(seed, p.id, i);
        let want_trace = samples.len() < 2 && i < of * 2;
        let o = execute(p.run, &Source::Seed(s), want_trace, -1);
        runs += 1;
        events += o.events;
        ns += o.simulated_ns;
        digest ^= choice::fnv(o.hash, &i.to_le_bytes());
        if o.nontrivial {
            nontriv += 1;
            hashes.insert(o.hash);
        }
        if let Some(e) = o.harness_error {
            result = json!({"kind": "harness", "run": i, "msg": e});
            break;
        }
        if want_trace {
            samples.push(json!({"run": i, "seed": s, "choices": o.choices.len(), "trace": o.trace}));
        }
        if let Some(b) = o.bad {
            if let Some(k) = known_match(&known, p.id, &b) {
                known_hits[k] += 1;
            } else if sweeping() {
                println!("SWEEP\t{}\t{}\t{}", b.class.replace('\n', " "), i, b.msg.replace('\n', " ").chars().take(400).collect::<String>());
            } else {
                shared.at(0).fetch_min(i, SeqCst);
                arm_watchdog(600);
                let run = p.run;
                let class = b.class.clone();
                let min = minimise(o.choices.clone(), 4000, 45.0, &mut |c| {
                    let o = execute(run, &Source::Choices(c.to_vec()), false, -1);
                    match (&o.bad, &o.harness_error) {
                        (Some(x), None) if x.class == class => Some(o.choices),
                        _ => None,
                    }
                });
                let fin = execute(run, &Source::Choices(min.clone()), true, -1);
                let (msg, trace) = match fin.bad {
                    Some(x) => (x.msg, fin.trace),
                    None => (b.msg.clone(), vec![]),
                };
                result = json!({"kind": "violation", "run": i, "run_seed": s, "class": b.class, "msg": msg, "choices": min,
                    "trace": trace, "original_choices": o.choices.len()});
                break;
            }
        }
        i += of;
    }
    disarm_watchdog();
    let faults: Vec<u64> = seam::FAULTS.iter().map(|f| f.load(Relaxed)).collect();
    let out = json!({"runs": runs, "events": events, "nontrivial": nontriv, "hashes": hashes, "ns": ns as f64, "faults": faults,
        "known_hits": known_hits, "samples": samples, "digest": digest, "result": result, "wall": t0.elapsed().as_secs_f64(),
        "probes": *PROBES.lock().unwrap()});
    std::fs::write(dir.join(format!("w{}.json", shard)), serde_json::to_vec(&out).unwrap()).expect("worker result");
    shared.at(8 + shard as usize).store(0, SeqCst);
    0
}

fn arm_watchdog(cpu_s: i64) {
    // the process is killed when a single run burns this much CPU time: a hang, told apart from a slow machine
    unsafe {
        let mut v: libc::itimerval = std::mem::zeroed();
        v.it_value.tv_sec = cpu_s;
        libc::setitimer(libc::ITIMER_VIRTUAL, &v, std::ptr::null_mut());
    }
}
fn disarm_watchdog() {
    arm_watchdog(0)
}

fn crash_class(st: &std::process::ExitStatus) -> Option<Bad> {
    use std::os::unix::process::ExitStatusExt;
    if let Some(sig) = st.signal() {
        let w = match sig {
            libc::SIGVTALRM => "hang: the call did not return within 120 s of CPU time",
            libc::SIGSEGV | libc::SIGABRT | libc::SIGBUS => "the process died (stack exhausted or aborted)",
            libc::SIGKILL => return None,
            _ => return None,
        };
        return bad::<()>(w, format!("{} (signal {})", w, sig)).err();
    }
    match st.code() {
        Some(c) if c == seam::EXIT_ALLOC => bad::<()>("memory without bound", "the call allocated beyond its memory budget").err(),
        Some(c) if c == crate::sched::EXIT_DEADLOCK => bad::<()>("deadlock", "every simulated thread waits for a lock").err(),
        Some(c) if c == seam::EXIT_ALLOC_CALLS => bad::<()>("work without bound", "the call made more allocations than its work budget allows").err(),
        _ => None,
    }
}

/// Runs one source in a process of its own; used for violations that kill the process.
fn exec_child(p: &Prop, src: &Source, dir: &Path, cpu_s: u64) -> (Option<Bad>, Vec<u64>) {
    let sinkf = dir.join("sink");
    let _ = std::fs::write(&sinkf, b"");
    let mut c = std::process::Command::new(std::env::current_exe().unwrap());
    c.arg("exec").arg(p.id).arg(dir).arg(cpu_s.to_string());
    match src {
        Source::Seed(s) => {
            c.arg("seed").arg(s.to_string());
        }
        Source::Choices(v) => {
            let f = dir.join("choices.json");
            std::fs::write(&f, serde_json::to_vec(v).unwrap()).unwrap();
            c.arg("choices").arg(f);
        }
    }
    let o = c.output().expect("child");
    let raw = std::fs::read(&sinkf).unwrap_or_default();
    let choices = raw.chunks_exact(8).map(|b| u64::from_le_bytes(b.try_into().unwrap())).collect();
    let b = crash_class(&o.status).or_else(|| {
        let s = String::from_utf8_lossy(&o.stdout);
        let v: Value = serde_json::from_str(s.trim()).ok()?;
        Some(Bad { class: v["class"].as_str()?.into(), msg: v["msg"].as_str()?.into() })
    });
    (b, choices)
}
pub fn exec_main(p: &Prop, dir: &Path, cpu_s: i64, src: Source) -> i32 {
    use std::os::fd::AsRawFd;
    let sink = std::fs::OpenOptions::new().append(true).create(true).open(dir.join("sink")).expect("sink");
    arm_watchdog(cpu_s);
    let o = execute(p.run, &src, false, sink.as_raw_fd());
    if let Some(b) = o.bad {
        println!("{}", json!({"class": b.class, "msg": b.msg}));
    }
    0
}

fn write_replay(p: &Prop, seed: u64, v: &Value) -> PathBuf {
    let d = verif_dir().join("replays");
    let _ = std::fs::create_dir_all(&d);
    let f = d.join(format!("{}-seed{}-run{}.json", p.id, seed, v["run"]));
    let doc = json!({"property": p.id, "seed": seed, "run": v["run"], "run_seed": v["run_seed"], "class": v["class"], "message": v["msg"],
        "choices": v["choices"], "trace": v["trace"], "original_choices": v["original_choices"],
        "replay": format!("bash /verif/replay.sh {}", f.display())});
    std::fs::write(&f, serde_json::to_vec_pretty(&doc).unwrap()).expect("replay file");
    f
}

pub fn replay_main(props: &[Prop], file: &Path) -> i32 {
    let v: Value = serde_json::from_slice(&std::fs::read(file).expect("replay file")).expect("replay JSON");
    let id = v["property"].as_str().unwrap_or("");
    let Some(p) = props.iter().find(|p| p.id == id) else {
        eprintln!("unknown property {}", id);
        return 2;
    };
    let choices: Vec<u64> = v["choices"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap()).collect();
    let dir = scratch().join(format!("replay-{}", std::process::id()));
    std::fs::create_dir_all(&dir).unwrap();
    let (b, _) = exec_child(p, &Source::Choices(choices), &dir, 60);
    let _ = std::fs::remove_dir_all(&dir);
    match b {
        Some(b) => {
            println!("class: {}\n{}", b.class, b.msg);
            println!("expected class: {}", v["class"].as_str().unwrap_or(""));
            println!("VIOLATION property={} replay={}", id, file.display());
            1
        }
        None => {
            println!("the recorded execution no longer violates {}", id);
            0
        }
    }
}

pub fn check_main(p: &Prop, seed: u64, tier: &str, workers: u64, runs_override: Option<u64>) -> i32 {
    let t0 = Instant::now();
    let total = runs_override.unwrap_or(if tier == "thorough" { p.thorough } else { p.quick });
    let deadline = if tier == "thorough" { 3.0 * 3600.0 } else { 420.0 };
    let dir = scratch().join(format!("{}-{}", p.id, std::process::id()));
    let _ = std::fs::remove_dir_all(&dir);
    std::fs::create_dir_all(&dir).expect("scratch");
    let shared = Shared::map(&dir.join("shared"));
    shared.at(0).store(u64::MAX, SeqCst);
    println!("property={} tier={} VERIF_SEED={} runs={} workers={}", p.id, tier, seed, total, workers);
    let exe = std::env::current_exe().unwrap();
    let mut kids: Vec<Option<std::process::Child>> = (0..workers)
        .map(|w| {
            let log = std::fs::File::create(dir.join(format!("w{}.log", w))).unwrap();
            Some(
                std::process::Command::new(&exe)
                    .args(["worker", p.id, &seed.to_string(), &w.to_string(), &workers.to_string(), &total.to_string()])
                    .arg(&dir)
                    .arg(deadline.to_string())
                    .stderr(log)
                    .spawn()
                    .expect("worker"),
            )
        })
        .collect();
    let known = load_known();
    let mut found: Option<Value> = None; // the violation with the lowest run index
    let mut harness: Option<String> = None;
    let mut stats: Vec<Value> = vec![];
    let mut crashed_known = vec![0u64; known.len()];
    let take = |found: &mut Option<Value>, v: Value| {
        if found.as_ref().map_or(true, |f| v["run"].as_u64() < f["run"].as_u64()) {
            *found = Some(v);
        }
    };
    for w in 0..workers as usize {
        let st = kids[w].take().unwrap().wait().expect("wait");
        let f = dir.join(format!("w{}.json", w));
        if st.success() && f.exists() {
            let v: Value = serde_json::from_slice(&std::fs::read(&f).unwrap()).unwrap();
            match v["result"]["kind"].as_str() {
                Some("violation") => take(&mut found, v["result"].clone()),
                Some("harness") => harness = Some(v["result"].to_string()),
                _ => (),
            }
            stats.push(v);
            continue;
        }
        // the worker died inside a run
        let cur = shared.at(8 + w).load(SeqCst);
        if cur == 0 {
            harness = Some(format!("worker {} died outside any run: {:?}", w, st));
            continue;
        }
        let i = cur - 1;
        let s = run_seed(seed, p.id, i);
        match crash_class(&st) {
            None => harness = Some(format!("worker {} ended with {:?} in run {}", w, st, i)),
            Some(_) => {
                let (b, choices) = exec_child(p, &Source::Seed(s), &dir, 60);
                match b {
                    Some(b) => {
                        if let Some(k) = known_match(&known, p.id, &b) {
                            crashed_known[k] += 1;
                            continue;
                        }
                        shared.at(0).fetch_min(i, SeqCst);
                        let cpu = 20;
                        let class = b.class.clone();
                        let min = minimise(choices.clone(), 300, 60.0, &mut |c| {
                            let (x, used) = exec_child(p, &Source::Choices(c.to_vec()), &dir, cpu);
                            match x {
                                Some(x) if x.class == class => Some(used),
                                _ => None,
                            }
                        });
                        take(
                            &mut found,
                            json!({"kind": "violation", "run": i, "run_seed": s, "class": b.class, "msg": b.msg, "choices": min,
                                "trace": ["(the run kills its process; no trace)"], "original_choices": choices.len()}),
                        );
                    }
                    None => harness = Some(format!("worker {} ended with {:?} in run {}, which does not reproduce", w, st, i)),
                }
            }
        }
    }
    let sum = |k: &str| stats.iter().map(|v| v[k].as_u64().unwrap_or(0)).sum::<u64>();
    let mut hashes: BTreeSet<u64> = BTreeSet::new();
    let mut faults = vec![0u64; seam::NFAULT];
    let mut known_hits = crashed_known;
    let mut ns = 0f64;
    let mut digest = 0u64;
    let mut samples = vec![];
    let mut probes: std::collections::BTreeMap<String, u64> = Default::default();
    for v in &stats {
        for h in v["hashes"].as_array().into_iter().flatten() {
            hashes.insert(h.as_u64().unwrap());
        }
        for (i, f) in v["faults"].as_array().into_iter().flatten().enumerate() {
            faults[i] += f.as_u64().unwrap();
        }
        for (i, f) in v["known_hits"].as_array().into_iter().flatten().enumerate() {
            known_hits[i] += f.as_u64().unwrap();
        }
        for (k, n) in v["probes"].as_object().into_iter().flatten() {
            *probes.entry(k.clone()).or_insert(0) += n.as_u64().unwrap();
        }
        ns += v["ns"].as_f64().unwrap_or(0.0);
        digest ^= v["digest"].as_u64().unwrap_or(0);
        if samples.len() < 3 {
            samples.extend(v["samples"].as_array().into_iter().flatten().take(1).cloned());
        }
    }
    let wall = t0.elapsed().as_secs_f64();
    let runs = sum("runs");
    let fj: serde_json::Map<String, Value> =
        (0..seam::NFAULT).filter(|&i| faults[i] > 0).map(|i| (seam::fault_name(i), json!(faults[i]))).collect();
    let ev = json!({
        "property": p.id, "tier": tier, "seed": seed, "level": p.level,
        "coverage": {
            "evaluations": runs, "distinct_nontrivial": hashes.len(), "nontrivial_runs": sum("nontrivial"), "rule": p.rule,
            "samples": samples, "events": sum("events"), "seeds_per_hour": if wall > 0.0 { (runs as f64 * 3600.0 / wall).round() } else { 0.0 },
            "simulated_seconds": (ns / 1e9 * 1000.0).round() / 1000.0, "faults_injected": fj, "probes": probes,
            "event_log_digest": format!("{:016x}", digest),
            "distinct_measure": "distinct digests of the run's event log (every I/O call with its size and result, fault, clock reading, context switch and library call)",
            "real_components": p.real, "stub_components": p.stub,
            "known_findings_hit": known.iter().zip(&known_hits).filter(|(_, n)| **n > 0).map(|(k, n)| json!({"what": k.what, "hits": n})).collect::<Vec<_>>(),
        },
        "assumptions": ["seeded search samples the space of runs; it does not enumerate it"],
        "wall_s": (wall * 100.0).round() / 100.0, "violations": if found.is_some() { 1 } else { 0 },
    });
    let _ = std::fs::create_dir_all(verif_dir().join("evidence"));
    std::fs::write(verif_dir().join("evidence").join(format!("{}.json", p.id)), serde_json::to_vec_pretty(&ev).unwrap()).expect("evidence");
    let _ = std::fs::remove_dir_all(&dir);
    for k in known.iter().filter(|k| k.property == p.id) {
        println!("KNOWN-FINDING: property={} {}", p.id, k.what);
    }
    println!(
        "runs={} distinct={} wall={:.1}s digest={:016x} faults={}",
        runs,
        hashes.len(),
        wall,
        digest,
        serde_json::to_string(&fj).unwrap()
    );
    let _ = std::io::stdout().flush();
    if let Some(v) = found {
        let f = write_replay(p, seed, &v);
        println!("{}", v["class"].as_str().unwrap_or(""));
        println!("{}", v["msg"].as_str().unwrap_or(""));
        println!("VIOLATION property={} replay={}", p.id, f.display());
        return 1;
    }
    if let Some(h) = harness {
        eprintln!("error of the check itself: {}", h);
        return 2;
    }
    0
}
pub fn fault(f: Fault) {
    seam::fault(f)
}

fn sweeping() -> bool {
    std::env::var_os("DXFSIM_SWEEP").is_some()
}
/// Development aid: runs everything and lists every distinct class of violation instead of stopping at the first.
pub fn sweep_main(p: &'static Prop, seed: u64, total: u64, workers: u64) -> i32 {
    let dir = scratch().join(format!("sweep-{}-{}", p.id, std::process::id()));
    std::fs::create_dir_all(&dir).expect("scratch");
    let shared = Shared::map(&dir.join("shared"));
    shared.at(0).store(u64::MAX, SeqCst);
    let exe = std::env::current_exe().unwrap();
    let all: std::sync::Arc<std::sync::Mutex<std::collections::BTreeMap<String, (u64, u64, String)>>> = Default::default();
    let ths: Vec<_> = (0..workers)
        .map(|w| {
            let (dir, exe, all) = (dir.clone(), exe.clone(), all.clone());
            std::thread::spawn(move || {
                let shared = Shared::map(&dir.join("shared"));
                let mut from = 0u64;
                loop {
                    let o = std::process::Command::new(&exe)
                        .args(["worker", p.id, &seed.to_string(), &w.to_string(), &workers.to_string(), &total.to_string()])
                        .arg(&dir)
                        .arg("100000")
                        .env("DXFSIM_SWEEP", "1")
                        .env("DXFSIM_FROM", from.to_string())
                        .output()
                        .unwrap();
                    let mut add = |c: String, i: u64, m: String| {
                        let mut a = all.lock().unwrap();
                        let e = a.entry(c).or_insert((0, i, m));
                        e.0 += 1;
                    };
                    for l in String::from_utf8_lossy(&o.stdout).lines() {
                        let f: Vec<&str> = l.split('\t').collect();
                        if f.len() == 4 && f[0] == "SWEEP" {
                            add(f[1].into(), f[2].parse().unwrap(), f[3].into());
                        }
                    }
                    let cur = shared.at(8 + w as usize).load(SeqCst);
                    let done = o.status.success();
                    if done {
                        let v: Value = serde_json::from_slice(&std::fs::read(dir.join(format!("w{}.json", w))).unwrap()).unwrap();
                        if v["result"]["kind"] == "harness" {
                            add(format!("HARNESS {}", v["result"]["msg"]), v["result"]["run"].as_u64().unwrap(), String::new());
                            from = v["result"]["run"].as_u64().unwrap() + workers - w;
                            continue;
                        }
                        break;
                    }
                    match crash_class(&o.status) {
                        Some(b) => add(b.class, cur - 1, b.msg),
                        None => add(format!("{:?}", o.status), cur.max(1) - 1, String::new()),
                    }
                    from = cur - 1 + workers - w;
                }
            })
        })
        .collect();
    for t in ths {
        let _ = t.join();
    }
    let _ = std::fs::remove_dir_all(&dir);
    for (c, (n, i, m)) in all.lock().unwrap().iter() {
        println!("{:6}  run {:<7} {}\n          {}", n, i, c, m);
    }
    0
}
/// Development aid: one run, with its trace.
pub fn show_main(p: &Prop, seed: u64, i: u64) -> i32 {
    let o = execute(p.run, &Source::Seed(run_seed(seed, p.id, i)), true, -1);
    for t in &o.trace {
        println!("  {}", t);
    }
    println!("{:?} {:?}", o.bad, o.harness_error);
    0
}
