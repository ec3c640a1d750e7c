//! Harness kit: case enumeration on all cores, violation reports, evidence files, known findings.

use std::any::Any;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::fmt::Write as _;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::PathBuf;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

pub use mcsched::{Config, RunResult, Stats};

pub mod num;

/// What a case returns: Ok(Some(digest)) for a non-trivial case, Ok(None) for a trivial one, Err for a violation.
pub type Verdict = Result<Option<u64>, String>;

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !($c) { return Err(format!($($a)*)); } };
}

#[macro_export]
macro_rules! ensure_eq {
    ($a:expr, $b:expr, $($m:tt)*) => {{
        let (a, b) = (&$a, &$b);
        if !(*a == *b) { return Err(format!("{}: got {:?}, expected {:?}", format!($($m)*), a, b)); }
    }};
}

pub fn digest<T: Hash + ?Sized>(t: &T) -> u64 {
    // FNV-like mixing over the std hasher with fixed keys
    let mut h = std::collections::hash_map::DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

/// Mixed-radix digits of a case index.
#[derive(Clone)]
pub struct Dig(pub u64);

impl Dig {
    pub fn next(&mut self, radix: u64) -> usize {
        let d = self.0 % radix;
        self.0 /= radix;
        d as usize
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.next(xs.len() as u64)]
    }
    pub fn bit(&mut self) -> bool {
        self.next(2) == 1
    }
}

/// All k-element index vectors over 0..n are n^k; this is the count (saturating).
pub fn pow(n: u64, k: u32) -> u64 {
    n.saturating_pow(k)
}

pub fn permutations(n: usize) -> Vec<Vec<usize>> {
    fn rec(cur: &mut Vec<usize>, used: &mut Vec<bool>, out: &mut Vec<Vec<usize>>) {
        let n = used.len();
        if cur.len() == n {
            out.push(cur.clone());
            return;
        }
        for i in 0..n {
            if !used[i] {
                used[i] = true;
                cur.push(i);
                rec(cur, used, out);
                cur.pop();
                used[i] = false;
            }
        }
    }
    let mut out = vec![];
    rec(&mut vec![], &mut vec![false; n], &mut out);
    out
}

thread_local! {
    static LAST_PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
}

static QUIET: AtomicBool = AtomicBool::new(true);

fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let full = format!("{msg} at {loc}");
        if !QUIET.load(Ordering::Relaxed) {
            eprintln!("panic: {full}");
        }
        let _ = LAST_PANIC.try_with(|p| *p.borrow_mut() = Some(full));
    }));
}

/// Run `f`; a panic becomes Err(message with location).
pub fn no_panic<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    let _ = LAST_PANIC.try_with(|p| p.borrow_mut().take());
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(r) => Ok(r),
        Err(e) => Err(LAST_PANIC
            .try_with(|p| p.borrow_mut().take())
            .ok()
            .flatten()
            .unwrap_or_else(|| panic_text(&*e))),
    }
}

pub fn panic_text(e: &(dyn Any + Send)) -> String {
    mcsched::panic_message(e)
}

fn json_str(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn clip(s: &str, n: usize) -> String {
    if s.chars().count() <= n {
        s.to_string()
    } else {
        let t: String = s.chars().take(n).collect();
        format!("{t} ...")
    }
}

#[derive(Default, Clone)]
struct SuiteRec {
    evaluations: u64,
    nontrivial: u64,
    distinct: u64,
    exhaustive: bool,
    extra: BTreeMap<String, u64>,
    wall: f64,
}

#[derive(Clone, Copy, PartialEq)]
pub enum Level {
    Exploration,
    FaultEnumeration,
    ModelChecking,
}

pub struct Ctx {
    pub id: String,
    pub thorough: bool,
    seed: i64,
    level: Level,
    rule: String,
    start: Instant,
    root: PathBuf,
    known: Vec<String>,
    known_printed: Mutex<HashSet<String>>,
    violations: AtomicUsize,
    suites: Mutex<Vec<(String, SuiteRec)>>,
    samples: Mutex<Vec<String>>,
    assumptions: Mutex<Vec<String>>,
    totals: Mutex<BTreeMap<String, u64>>,
    only: Option<(String, String)>,
    case_limit: Duration,
}

/// Far more than any check needs on code that ends.
const MEMORY_LIMIT: u64 = 14 << 30;

fn resident_bytes() -> u64 {
    let pages = std::fs::read_to_string("/proc/self/statm").ok();
    pages.and_then(|s| s.split(' ').nth(1)?.parse::<u64>().ok()).map_or(0, |p| p * 4096)
}

impl Ctx {
    pub fn new(id: &str, level: Level, rule: &str) -> Arc<Ctx> {
        install_panic_hook();
        let root = PathBuf::from(std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into()));
        let mut known = vec![];
        if let Ok(s) = std::fs::read_to_string(root.join("known-findings.txt")) {
            for l in s.lines() {
                let pre = format!("known: property={id} key=");
                if let Some(k) = l.strip_prefix(&pre) {
                    known.push(k.split(" -- ").next().unwrap_or(k).trim().to_string());
                }
            }
        }
        let only = match (std::env::var("MC_SUITE"), std::env::var("MC_CASE")) {
            (Ok(a), Ok(b)) => Some((a, b)),
            (Ok(a), _) => Some((a, String::new())),
            _ => None,
        };
        if only.is_some() {
            QUIET.store(false, Ordering::Relaxed);
        }
        Arc::new(Ctx {
            id: id.into(),
            thorough: std::env::var("VERIF_TIER").map_or(false, |t| t == "thorough"),
            seed: std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1),
            level,
            rule: rule.into(),
            start: Instant::now(),
            root,
            known,
            known_printed: Default::default(),
            violations: AtomicUsize::new(0),
            suites: Default::default(),
            samples: Default::default(),
            assumptions: Default::default(),
            totals: Default::default(),
            only,
            case_limit: Duration::from_secs(100),
        })
    }

    /// Pick a bound by tier.
    pub fn tier<T>(&self, quick: T, thorough: T) -> T {
        if self.thorough {
            thorough
        } else {
            quick
        }
    }

    pub fn assume(&self, s: &str) {
        self.assumptions.lock().unwrap().push(s.into());
    }

    pub fn count(&self, name: &str, n: u64) {
        *self.totals.lock().unwrap().entry(name.into()).or_default() += n;
    }

    pub fn sample(&self, s: impl Into<String>) {
        let mut v = self.samples.lock().unwrap();
        if v.len() < 40 {
            v.push(clip(&s.into(), 600));
        }
    }

    pub fn violated(&self) -> usize {
        self.violations.load(Ordering::SeqCst)
    }

    /// Report a violation, unless it is a known finding. `key` identifies the failing input.
    pub fn violation(&self, suite: &str, key: &str, case: &str, message: &str) {
        let full = format!("{suite}|{key}");
        if self.known.iter().any(|k| *k == full) {
            if self.known_printed.lock().unwrap().insert(full.clone()) {
                println!("KNOWN-FINDING: property={} {} {}", self.id, full, clip(message, 300));
            }
            return;
        }
        let n = self.violations.fetch_add(1, Ordering::SeqCst) + 1;
        if n > 5 {
            return;
        }
        let dir = self.root.join("replays");
        let _ = std::fs::create_dir_all(&dir);
        let path = dir.join(format!("{}-{}.txt", self.id, n));
        let text = format!(
            "property: {}\nsuite: {}\ncase: {}\ninput: {}\nmessage: {}\n\nreplay with: MC_SUITE='{}' MC_CASE='{}' VERIF_TIER={} /verif/check.sh {}\n",
            self.id, suite, case, key, message, suite, case, if self.thorough { "thorough" } else { "quick" }, self.id
        );
        let _ = std::fs::write(&path, text);
        println!("VIOLATION property={} replay=replays/{}-{}.txt", self.id, self.id, n);
        println!("  suite {suite}, case {case}: {}", clip(key, 1500));
        println!("  {}", clip(message, 1500));
    }

    fn skip(&self, suite: &str) -> bool {
        self.only.as_ref().map_or(false, |(s, _)| s != suite)
    }

    /// Evaluate the cases 0..n on all cores. `describe` identifies a case in words (and is the key of known findings).
    pub fn suite(
        self: &Arc<Self>,
        name: &str,
        n: u64,
        describe: impl Fn(u64) -> String + Sync,
        f: impl Fn(u64) -> Verdict + Sync,
    ) {
        if self.skip(name) {
            return;
        }
        let t0 = Instant::now();
        if let Some((_, c)) = &self.only {
            if let Ok(i) = c.parse::<u64>() {
                println!("replaying {name} case {i}: {}", describe(i));
                match no_panic(|| f(i)).unwrap_or_else(|p| Err(format!("panicked: {p}"))) {
                    Ok(_) => println!("the property holds on this case"),
                    Err(m) => self.violation(name, &describe(i), &i.to_string(), &m),
                }
                return;
            }
        }
        let next = AtomicU64::new(0);
        let stop = AtomicBool::new(false);
        let found = AtomicUsize::new(0);
        let threads = std::thread::available_parallelism().map_or(4, |x| x.get()).min(16);
        let chunk = (n / (threads as u64 * 64)).clamp(1, 1024);
        let total = Mutex::new((0u64, 0u64, HashSet::<u64>::new()));
        let slots: Vec<Mutex<Option<(u64, Instant)>>> = (0..threads).map(|_| Mutex::new(None)).collect();
        let finished = AtomicUsize::new(0);
        let sample_at = [0, n / 3, n / 2, n.saturating_sub(1)];
        std::thread::scope(|s| {
            for t in 0..threads {
                let (next, stop, found, total, slots, finished, describe, f) =
                    (&next, &stop, &found, &total, &slots, &finished, &describe, &f);
                let this = &*self;
                std::thread::Builder::new()
                    .stack_size(16 << 20)
                    .spawn_scoped(s, move || {
                        let (mut ev, mut nt) = (0u64, 0u64);
                        let mut set = HashSet::new();
                        'o: loop {
                            let lo = next.fetch_add(chunk, Ordering::Relaxed);
                            if lo >= n {
                                break;
                            }
                            for i in lo..(lo + chunk).min(n) {
                                if stop.load(Ordering::Relaxed) {
                                    break 'o;
                                }
                                *slots[t].lock().unwrap() = Some((i, Instant::now()));
                                let r = no_panic(|| f(i)).unwrap_or_else(|p| Err(format!("panicked: {p}")));
                                ev += 1;
                                match r {
                                    Ok(None) => {}
                                    Ok(Some(d)) => {
                                        nt += 1;
                                        set.insert(d);
                                        if sample_at.contains(&i) {
                                            this.sample(format!("{name}: {}", describe(i)));
                                        }
                                    }
                                    Err(m) => {
                                        this.violation(name, &describe(i), &i.to_string(), &m);
                                        if found.fetch_add(1, Ordering::SeqCst) >= 400 || this.violated() >= 3 {
                                            stop.store(true, Ordering::SeqCst);
                                        }
                                    }
                                }
                            }
                        }
                        *slots[t].lock().unwrap() = None;
                        let mut g = total.lock().unwrap();
                        g.0 += ev;
                        g.1 += nt;
                        g.2.extend(set);
                        finished.fetch_add(1, Ordering::SeqCst);
                    })
                    .expect("spawn");
            }
            // Watchdog: a case that does not end is a violation (and we cannot go on after it).
            let mut ticks = 0u64;
            while finished.load(Ordering::SeqCst) < threads {
                std::thread::sleep(Duration::from_millis(if ticks < 200 { 1 } else { 20 }));
                ticks += 1;
                if ticks >= 200 && resident_bytes() > MEMORY_LIMIT {
                    // Name the case that runs for longest.
                    let longest = slots.iter().filter_map(|s| *s.lock().unwrap()).min_by_key(|(_, at)| *at);
                    if let Some((i, _)) = longest {
                        self.violation(name, &describe(i), &i.to_string(), "the memory that the case needs grows without end");
                        self.write_evidence();
                        std::process::exit(1);
                    }
                }
                if ticks % 25 == 0 {
                    for s in &slots {
                        let g = s.lock().unwrap();
                        if let Some((i, at)) = *g {
                            if at.elapsed() > self.case_limit {
                                drop(g);
                                self.violation(name, &describe(i), &i.to_string(), "the case did not end");
                                self.write_evidence();
                                std::process::exit(1);
                            }
                        }
                    }
                }
            }
        });
        let (ev, nt, set) = total.into_inner().unwrap();
        let rec = SuiteRec {
            evaluations: ev,
            nontrivial: nt,
            distinct: set.len() as u64,
            exhaustive: ev == n,
            extra: BTreeMap::new(),
            wall: t0.elapsed().as_secs_f64(),
        };
        println!(
            "[{}] {name}: {ev} of {n} cases, {nt} non-trivial, {} distinct, {:.1} s",
            self.id, rec.distinct, rec.wall
        );
        self.suites.lock().unwrap().push((name.into(), rec));
    }

    /// Evaluate a list of cases.
    pub fn suite_over<C: Sync>(
        self: &Arc<Self>,
        name: &str,
        cases: &[C],
        describe: impl Fn(&C) -> String + Sync,
        f: impl Fn(&C) -> Verdict + Sync,
    ) {
        self.suite(name, cases.len() as u64, |i| describe(&cases[i as usize]), |i| f(&cases[i as usize]));
    }

    /// Explore all schedules of each scenario. `body(case)` is run once per schedule and says whether that run was fine.
    pub fn schedules<C: Sync>(
        self: &Arc<Self>,
        name: &str,
        cases: &[C],
        cfg: impl Fn(&C) -> Config + Sync,
        describe: impl Fn(&C) -> String + Sync,
        body: impl Fn(&C) -> RunResult + Sync,
    ) {
        if self.skip(name) {
            return;
        }
        let t0 = Instant::now();
        if let Some((_, c)) = &self.only {
            if let Some((i, sched)) = c.split_once(':') {
                let i: usize = i.parse().expect("case index");
                let prefix: Vec<u16> = sched.split('.').filter_map(|x| x.parse().ok()).collect();
                let mut cf = cfg(&cases[i]);
                cf.preemptions = usize::MAX;
                println!("replaying {name} case {i}: {}", describe(&cases[i]));
                let once = mcsched::run_once(&cfg(&cases[i]), &prefix, &|| body(&cases[i]));
                match once.result {
                    Ok(_) => println!("the property holds on this schedule"),
                    Err(m) => self.violation(name, &describe(&cases[i]), c, &m),
                }
                return;
            }
        }
        let next = AtomicUsize::new(0);
        let threads = std::thread::available_parallelism().map_or(4, |x| x.get()).min(8);
        let total = Mutex::new((Stats::default(), 0u64, 0u64, HashSet::<u64>::new()));
        std::thread::scope(|s| {
            for _ in 0..threads {
                let (next, total, cfg, describe, body) = (&next, &total, &cfg, &describe, &body);
                let this = &*self;
                s.spawn(move || loop {
                    let i = next.fetch_add(1, Ordering::SeqCst);
                    if i >= cases.len() || this.violated() >= 3 {
                        break;
                    }
                    let c = &cases[i];
                    let (st, fail) = mcsched::explore(&cfg(c), &|| {
                        match no_panic(|| body(c)) {
                            Ok(r) => r,
                            Err(p) => Err(format!("panicked: {p}")),
                        }
                    });
                    if let Some(f) = fail {
                        let sched: Vec<String> = f.schedule.iter().map(|x| x.to_string()).collect();
                        this.violation(name, &describe(c), &format!("{i}:{}", sched.join(".")), &f.message);
                        if f.message.starts_with("deadlock") || f.message.starts_with("hang") {
                            this.write_evidence();
                            std::process::exit(1);
                        }
                    } else if i == 0 || i + 1 == cases.len() {
                        this.sample(format!("{name}: {} -> {} schedules, {} outcomes", describe(c), st.runs, st.outcomes));
                    }
                    let mut g = total.lock().unwrap();
                    g.0.add(&st);
                    g.1 += 1;
                    g.2 += st.exhausted as u64;
                    if st.runs_with_steal > 0 {
                        g.3.insert(digest(&(i, describe(c))));
                    }
                });
            }
        });
        let (st, done, exhausted, concurrent) = total.into_inner().unwrap();
        let mut extra = BTreeMap::new();
        extra.insert("scenarios".into(), done);
        extra.insert("scenarios_exhausted_within_bound".into(), exhausted);
        extra.insert("scenarios_with_parallel_execution".into(), concurrent.len() as u64);
        extra.insert("schedules".into(), st.runs as u64);
        extra.insert("decision_nodes".into(), st.decisions as u64);
        extra.insert("scheduling_steps".into(), st.steps as u64);
        extra.insert("steals".into(), st.steals as u64);
        extra.insert("max_decisions_in_a_run".into(), st.max_depth as u64);
        extra.insert("diverged_replays".into(), st.diverged as u64);
        let rec = SuiteRec {
            evaluations: st.runs as u64,
            nontrivial: st.runs_with_steal as u64,
            distinct: st.runs_with_steal as u64,
            exhaustive: exhausted == cases.len() as u64,
            extra,
            wall: t0.elapsed().as_secs_f64(),
        };
        println!(
            "[{}] {name}: {done} of {} scenarios ({exhausted} exhausted), {} schedules ({} with steals), {} decision nodes, {} steps, {:.1} s",
            self.id, cases.len(), st.runs, st.runs_with_steal, st.decisions, st.steps, rec.wall
        );
        self.count("states", st.decisions as u64);
        self.count("transitions", st.steps as u64);
        self.count("traces", st.runs as u64);
        self.suites.lock().unwrap().push((name.into(), rec));
    }

    /// Record an explicit-state exploration (histories on the real object against a model).
    pub fn record_states(&self, name: &str, states: u64, transitions: u64, traces: u64, exhaustive: bool) {
        println!("[{}] {name}: {states} states, {transitions} transitions, {traces} histories on the real object", self.id);
        self.count("states", states);
        self.count("transitions", transitions);
        self.count("traces", traces);
        let mut extra = BTreeMap::new();
        extra.insert("states".into(), states);
        extra.insert("transitions".into(), transitions);
        self.suites.lock().unwrap().push((
            name.into(),
            SuiteRec { evaluations: traces, nontrivial: traces, distinct: traces, exhaustive, extra, wall: 0.0 },
        ));
    }

    fn write_evidence(&self) {
        let suites = self.suites.lock().unwrap();
        let totals = self.totals.lock().unwrap();
        let mut cov = String::new();
        let evals: u64 = suites.iter().map(|s| s.1.evaluations).sum();
        let distinct: u64 = suites.iter().map(|s| s.1.distinct).sum();
        let exhaustive = !suites.is_empty() && suites.iter().all(|s| s.1.exhaustive);
        let level = match self.level {
            Level::Exploration => "exploration",
            Level::FaultEnumeration => "fault_enumeration",
            Level::ModelChecking => "model_checking",
        };
        if self.level == Level::ModelChecking {
            let g = |k: &str| totals.get(k).copied().unwrap_or(0);
            let _ = write!(
                cov,
                "\"states\": {}, \"transitions\": {}, \"traces_validated_against_impl\": {}, \"input_cases\": {}, ",
                g("states"),
                g("transitions"),
                g("traces"),
                evals.saturating_sub(g("traces"))
            );
        } else {
            let _ = write!(cov, "\"evaluations\": {evals}, \"distinct_nontrivial\": {distinct}, ");
        }
        let _ = write!(cov, "\"rule\": {}, \"exhaustive\": {exhaustive}, \"samples\": [", json_str(&self.rule));
        let samples = self.samples.lock().unwrap();
        for (i, s) in samples.iter().enumerate() {
            let _ = write!(cov, "{}{}", if i > 0 { ", " } else { "" }, json_str(s));
        }
        cov.push_str("], \"suites\": {");
        for (i, (n, r)) in suites.iter().enumerate() {
            let _ = write!(
                cov,
                "{}{}: {{\"evaluations\": {}, \"nontrivial\": {}, \"distinct\": {}, \"exhaustive\": {}, \"wall_s\": {:.2}",
                if i > 0 { ", " } else { "" },
                json_str(n),
                r.evaluations,
                r.nontrivial,
                r.distinct,
                r.exhaustive,
                r.wall
            );
            for (k, v) in &r.extra {
                let _ = write!(cov, ", {}: {}", json_str(k), v);
            }
            cov.push('}');
        }
        cov.push('}');
        let assumptions = self.assumptions.lock().unwrap();
        let a: Vec<String> = assumptions.iter().map(|s| json_str(s)).collect();
        let text = format!(
            "{{\"property\": {}, \"tier\": \"{}\", \"seed\": {}, \"level\": \"{level}\", \"coverage\": {{{cov}}}, \"assumptions\": [{}], \"wall_s\": {:.2}, \"violations\": {}}}\n",
            json_str(&self.id),
            if self.thorough { "thorough" } else { "quick" },
            self.seed,
            a.join(", "),
            self.start.elapsed().as_secs_f64(),
            self.violated()
        );
        let dir = self.root.join("evidence");
        let _ = std::fs::create_dir_all(&dir);
        std::fs::write(dir.join(format!("{}.json", self.id)), text).expect("write evidence");
    }

    pub fn finish(&self) -> ! {
        if self.only.is_none() {
            self.write_evidence();
        }
        let v = self.violated();
        println!(
            "[{}] {} in {:.1} s",
            self.id,
            if v == 0 { "held on everything explored".to_string() } else { format!("{v} violations") },
            self.start.elapsed().as_secs_f64()
        );
        std::process::exit(if v == 0 { 0 } else { 1 });
    }
}

/// Interleave helper: a map from names to counts, for outcome statistics.
pub type Counts = HashMap<String, u64>;
