//! Running cases, collecting what was observed, reporting.
use crate::rng::{hash, mix, Rng};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::io::Write;
use std::panic::{self, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub type Res = Result<(), String>;

#[macro_export]
macro_rules! ensure {
    ($cond:expr, $($arg:tt)+) => { if !$cond { return Err(format!($($arg)+)); } };
}
#[macro_export]
macro_rules! fail {
    ($($arg:tt)+) => { return Err(format!($($arg)+)) };
}

/// What a worker observed
#[derive(Default)]
pub struct Obs {
    pub counts: BTreeMap<String, u64>,
    pub maxima: BTreeMap<String, u64>,
    pub distinct: HashSet<u64>,
    pub samples: Vec<String>,
    pub evaluations: u64,
}

impl Obs {
    fn merge(&mut self, o: Obs) {
        for (k, v) in o.counts {
            *self.counts.entry(k).or_insert(0) += v;
        }
        for (k, v) in o.maxima {
            let e = self.maxima.entry(k).or_insert(0);
            *e = (*e).max(v);
        }
        self.distinct.extend(o.distinct);
        for s in o.samples {
            if self.samples.len() < 12 {
                self.samples.push(s);
            }
        }
        self.evaluations += o.evaluations;
    }
}

/// One case: randomness, observation and the description printed if it fails.
pub struct Case {
    pub r: Rng,
    pub idx: usize,
    pub section: &'static str,
    pub desc: Vec<String>,
    pub obs: Obs,
}

impl Case {
    pub fn count(&mut self, k: &str) {
        self.add(k, 1)
    }
    pub fn add(&mut self, k: &str, n: u64) {
        match self.obs.counts.get_mut(k) {
            Some(v) => *v += n,
            None => {
                self.obs.counts.insert(k.to_string(), n);
            }
        }
    }
    pub fn max(&mut self, k: &str, n: u64) {
        let e = self.obs.maxima.entry(k.to_string()).or_insert(0);
        *e = (*e).max(n);
    }
    /// an execution whose outcome was judged
    pub fn eval(&mut self) {
        self.obs.evaluations += 1;
    }
    /// a distinct non-trivial case, identified by `sig`
    pub fn distinct(&mut self, sig: &[u8]) {
        self.obs.distinct.insert(hash(sig));
    }
    pub fn note(&mut self, s: impl Into<String>) {
        self.desc.push(s.into());
    }
    pub fn sample(&mut self, s: impl FnOnce() -> String) {
        if self.obs.samples.len() < 2 {
            let s = s();
            self.obs.samples.push(format!("[{} #{}] {}", self.section, self.idx, s));
        }
    }
}

thread_local! {
    static PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
    static CATCHING: RefCell<bool> = const { RefCell::new(false) };
}
/// panics on threads that are not running a case themselves (servers): (thread name, message)
pub static STRAY_PANICS: Mutex<Vec<String>> = Mutex::new(Vec::new());

pub fn install_hook() {
    panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let full = format!("panic at {}: {}", loc, msg);
        let _ = PANIC.try_with(|p| *p.borrow_mut() = Some(full.clone()));
        // (a panic of the server libraries in their own threads is none of ours)
        if !CATCHING.with(|c| *c.borrow()) && !loc.contains("/registry/src/") {
            STRAY_PANICS.lock().unwrap().push(full);
        }
    }));
}

/// Run `f`, turning a panic into `Err(message)`.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    let before = CATCHING.with(|c| c.replace(true));
    let res = panic::catch_unwind(AssertUnwindSafe(f));
    CATCHING.with(|c| *c.borrow_mut() = before);
    res.map_err(|_| PANIC.with(|p| p.borrow_mut().take()).unwrap_or_else(|| "panic".into()))
}

pub struct Ctx {
    pub id: &'static str,
    pub seed: u64,
    pub thorough: bool,
    pub only: Option<(String, usize)>,
    pub start: Instant,
    pub budget: Duration,
    pub obs: Mutex<Obs>,
    pub violations: AtomicUsize,
    pub known_said: Mutex<Vec<String>>,
    pub first: Mutex<Option<String>>,
    pub trouble: Mutex<Option<String>>,
    pub expect: Mutex<Vec<&'static str>>,
    pub assumptions: Mutex<Vec<String>>,
    pub capped: AtomicBool,
    pub root: std::path::PathBuf,
}

pub static CTX: std::sync::OnceLock<&'static Ctx> = std::sync::OnceLock::new();

/// Called by the allocator when one thread holds more than a gigabyte.
pub fn runaway(live: isize) {
    if let Some(ctx) = CTX.get() {
        let name = std::thread::current().name().unwrap_or("?").to_string();
        ctx.violation("runaway", 0, &format!("thread {} holds {} bytes of heap memory", name, live), &[]);
        ctx.finish_and_exit();
    }
}

static PROGRESS: AtomicU64 = AtomicU64::new(0);

/// A case takes milliseconds. One that has used this much processor time is in an endless loop ...
pub const CPU_LIMIT: Duration = Duration::from_secs(40);
/// ... and one that has used none but is not back after this long is blocked for good.
pub const CASE_LIMIT: Duration = Duration::from_secs(240);

fn cpu_clock() -> libc::clockid_t {
    let mut id = 0;
    unsafe { libc::pthread_getcpuclockid(libc::pthread_self(), &mut id) };
    id
}

fn cpu_time(id: libc::clockid_t) -> Option<Duration> {
    let mut t = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    if unsafe { libc::clock_gettime(id, &mut t) } != 0 {
        return None;
    }
    Some(Duration::new(t.tv_sec as u64, t.tv_nsec as u32))
}

#[derive(Clone, Copy)]
struct Running {
    idx: usize,
    since: Instant,
    clock: libc::clockid_t,
    cpu: Duration,
}

pub const QUICK_SCALE: usize = 5;
pub const THOROUGH_SCALE: usize = 20;
/// in a thorough run each section stops after this long, so that all of them get their turn
pub const SECTION_BUDGET: Duration = Duration::from_secs(300);

impl Ctx {
    pub fn n(&self, quick: usize, thorough: usize) -> usize {
        if self.thorough {
            thorough * THOROUGH_SCALE
        } else {
            // about 20 s at most on 8 cores
            quick * QUICK_SCALE
        }
    }

    /// Counters that must be non-zero at the end, or the run observed nothing worth reporting.
    pub fn expect(&self, keys: &[&'static str]) {
        self.expect.lock().unwrap().extend_from_slice(keys);
    }

    pub fn assume(&self, s: &str) {
        self.assumptions.lock().unwrap().push(s.to_string());
    }

    fn rng(&self, section: &str, idx: usize) -> Rng {
        Rng::new(mix(self.seed) ^ hash(self.id.as_bytes()) ^ hash(section.as_bytes()).rotate_left(17) ^ mix(idx as u64))
    }

    /// Run `n` cases on all cores.
    pub fn cases<F>(&self, section: &'static str, n: usize, f: F)
    where
        F: Fn(&mut Case) -> Res + Sync,
    {
        self.cases_on(section, n, 8, f)
    }

    pub fn serial<F>(&self, section: &'static str, n: usize, f: F)
    where
        F: Fn(&mut Case) -> Res + Sync,
    {
        self.cases_on(section, n, 1, f)
    }

    pub fn cases_on<F>(&self, section: &'static str, n: usize, threads: usize, f: F)
    where
        F: Fn(&mut Case) -> Res + Sync,
    {
        if let Some((ref s, _)) = self.only {
            if s != section {
                return;
            }
        }
        let next = AtomicUsize::new(0);
        let running: Vec<Mutex<Option<Running>>> = (0..threads).map(|_| Mutex::new(None)).collect();
        let done = AtomicBool::new(false);
        let t0 = Instant::now();
        std::thread::scope(|sc| {
            let workers: Vec<_> = (0..threads)
                .map(|w| {
                    let (next, running, f) = (&next, &running, &f);
                    std::thread::Builder::new()
                        .name(format!("{}-{}", section, w))
                        .stack_size(16 << 20)
                        .spawn_scoped(sc, move || {
                            let mut obs = Obs::default();
                            let clock = cpu_clock();
                            loop {
                                let idx = next.fetch_add(1, Ordering::SeqCst);
                                if idx >= n || self.violations.load(Ordering::SeqCst) > 0 {
                                    break;
                                }
                                if let Some((_, only)) = self.only {
                                    if idx != only {
                                        continue;
                                    }
                                }
                                if self.start.elapsed() > self.budget || (self.thorough && t0.elapsed() > SECTION_BUDGET) {
                                    self.capped.store(true, Ordering::SeqCst);
                                    break;
                                }
                                *running[w].lock().unwrap() = Some(Running { idx, since: Instant::now(), clock, cpu: cpu_time(clock).unwrap_or_default() });
                                let mut c = Case { r: self.rng(section, idx), idx, section, desc: vec![], obs: std::mem::take(&mut obs) };
                                let res = guard(|| f(&mut c));
                                let res = match res {
                                    Ok(r) => r,
                                    Err(p) => Err(p),
                                };
                                *running[w].lock().unwrap() = None;
                                PROGRESS.fetch_add(1, Ordering::SeqCst);
                                obs = std::mem::take(&mut c.obs);
                                if let Err(msg) = res {
                                    self.violation(section, idx, &msg, &c.desc);
                                    break;
                                }
                            }
                            self.obs.lock().unwrap().merge(obs);
                        })
                        .unwrap()
                })
                .collect();
            // watchdog: a case that does not come back is a hang of the code under test
            let running = &running;
            let done = &done;
            let dog = sc.spawn(move || {
                while !done.load(Ordering::SeqCst) {
                    std::thread::sleep(Duration::from_millis(20));
                    for slot in running.iter() {
                        let cur = *slot.lock().unwrap();
                        if let Some(run) = cur {
                            let wall = run.since.elapsed();
                            if wall < Duration::from_secs(5) {
                                continue;
                            }
                            let cpu = cpu_time(run.clock).unwrap_or_default().saturating_sub(run.cpu);
                            if cpu > CPU_LIMIT || wall > CASE_LIMIT {
                                let msg = format!("did not return within {:?} ({:?} of processor time): endless loop or deadlock", wall, cpu);
                                self.violation(section, run.idx, &msg, &[]);
                                self.finish_and_exit();
                            }
                        }
                    }
                }
            });
            for w in workers {
                let _ = w.join();
            }
            done.store(true, Ordering::SeqCst);
            let _ = dog.join();
        });
        if std::env::var_os("MP_TIMES").is_some() {
            eprintln!("{} {}: {} cases in {:?}", self.id, section, n, t0.elapsed());
        }
    }

    /// Reports a failure that KNOWN_FINDINGS.md lists under this key; false if it is not listed.
    pub fn known(&self, key: &str) -> bool {
        let head = format!("known: property={} key={} ", self.id, key);
        let listed = include_str!("../../KNOWN_FINDINGS.md").lines().find_map(|l| l.strip_prefix(&head[..]));
        if let Some(what) = listed {
            let mut said = self.known_said.lock().unwrap();
            if !said.iter().any(|k| k == key) {
                println!("KNOWN-FINDING: property={} {}", self.id, what);
                said.push(key.to_string());
            }
        }
        listed.is_some()
    }

    /// The harness could not observe something: no answer, unless something else is violated
    pub fn trouble(&self, msg: String) {
        self.trouble.lock().unwrap().get_or_insert(msg);
    }

    pub fn violation(&self, section: &str, idx: usize, msg: &str, desc: &[String]) {
        if self.violations.fetch_add(1, Ordering::SeqCst) > 0 {
            return;
        }
        let dir = self.root.join("replays");
        let _ = std::fs::create_dir_all(&dir);
        let path = dir.join(format!("{}-{}-{}.json", self.id, section, idx));
        let v = serde_json::json!({
            "property": self.id, "section": section, "case": idx, "seed": self.seed,
            "tier": if self.thorough { "thorough" } else { "quick" },
            "violation": msg, "case_description": desc,
            "replay_cmd": format!("cd /verif && VERIF_SEED={} VERIF_TIER={} ./check.sh {} --case {} {}",
                self.seed, if self.thorough { "thorough" } else { "quick" }, self.id, section, idx),
        });
        let _ = std::fs::write(&path, serde_json::to_string_pretty(&v).unwrap());
        let mut first = self.first.lock().unwrap();
        if first.is_none() {
            *first = Some(format!("VIOLATION property={} replay={}", self.id, path.display()));
            println!("violated: [{} #{}] {}", section, idx, msg);
            for d in desc {
                println!("  {}", d);
            }
        }
    }

    pub fn finish_and_exit(&self) -> ! {
        let stray: Vec<String> = std::mem::take(&mut *STRAY_PANICS.lock().unwrap());
        if !stray.is_empty() && self.violations.load(Ordering::SeqCst) == 0 {
            self.violation("stray", 0, &format!("panic on a background thread: {}", stray[0]), &stray);
        }
        let violations = self.violations.load(Ordering::SeqCst);
        let obs = self.obs.lock().unwrap();
        let missing: Vec<&str> = self.expect.lock().unwrap().iter().copied().filter(|k| obs.counts.get(*k).copied().unwrap_or(0) == 0).collect();
        let wall = self.start.elapsed().as_secs_f64();
        if self.only.is_none() {
            let info = crate::info(self.id);
            let ev = serde_json::json!({
                "property": self.id,
                "tier": if self.thorough { "thorough" } else { "quick" },
                "seed": self.seed,
                "level": info.level,
                "coverage": {
                    "evaluations": obs.evaluations,
                    "distinct_nontrivial": obs.distinct.len(),
                    "rule": info.rule,
                    "samples": obs.samples,
                    "observed": obs.counts,
                    "observed_maxima": obs.maxima,
                    "stopped_by_time_budget": self.capped.load(Ordering::SeqCst),
                },
                "assumptions": *self.assumptions.lock().unwrap(),
                "wall_s": wall,
                "violations": violations,
            });
            let dir = self.root.join("evidence");
            let _ = std::fs::create_dir_all(&dir);
            let tmp = dir.join(format!(".{}.tmp", self.id));
            if std::fs::write(&tmp, serde_json::to_string_pretty(&ev).unwrap() + "\n").is_ok() {
                let _ = std::fs::rename(&tmp, dir.join(format!("{}.json", self.id)));
            }
        }
        let code = if violations > 0 {
            println!("{}", self.first.lock().unwrap().clone().unwrap_or_default());
            1
        } else if let Some(t) = self.trouble.lock().unwrap().as_ref() {
            println!("INCONCLUSIVE: {}", t);
            2
        } else if self.only.is_none() && !missing.is_empty() {
            println!("INCONCLUSIVE: the run never observed: {}", missing.join(", "));
            2
        } else {
            println!(
                "OK property={} evaluations={} distinct={} wall={:.1}s{}",
                self.id,
                obs.evaluations,
                obs.distinct.len(),
                wall,
                if self.capped.load(Ordering::SeqCst) { " (time budget reached)" } else { "" }
            );
            0
        };
        let _ = std::io::stdout().flush();
        crate::scratch::cleanup();
        unsafe { libc::_exit(code) }
    }
}
