//! A controlled scheduler for fork-join programs (stateless model checking, CHESS style).
//!
//! An exploration runs a closure repeatedly. In each run a handful of *real* OS threads (fresh ones for each run, so
//! that thread-local state never leaks from one run into the next) act as the workers of a work-stealing pool, but only
//! the worker that holds the baton executes. At every scheduling point the workers that could go on, and the jobs idle
//! workers could steal, are listed in a fixed order and a decision is taken; the explorer enumerates the tree of
//! decisions depth first, up to a preemption bound.
//!
//! The vendored `rayon-core` routes `join_context` to [`join_context`] when [`active`] returns true, and the vendored
//! `lock_api` routes `Mutex::lock` to [`lock`].

use std::any::Any;
use std::cell::{RefCell, UnsafeCell};
use std::collections::{HashSet, VecDeque};
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::{Arc, Condvar, Mutex};
use std::time::{Duration, Instant};

thread_local! {
    static CUR: RefCell<Option<(Arc<Shared>, usize)>> = const { RefCell::new(None) };
}

struct JobRec {
    id: usize,
    ptr: *const (),
    exec: unsafe fn(*const (), bool),
    latch: Arc<AtomicBool>,
}
unsafe impl Send for JobRec {}

#[derive(Clone)]
enum Status {
    /// Can execute as soon as it gets the baton.
    Ready,
    /// Outermost loop of a worker: wants any job.
    Idle,
    /// Waits for a stolen job, and may steal other work in the meantime.
    WaitLatch(Arc<AtomicBool>),
    /// Waits for a lock; can retry once another worker has made a step.
    WaitLock(usize),
    /// Blocked in something we do not control (marked by the watchdog).
    External,
    Gone,
}

struct Worker {
    status: Status,
    started: bool,
    assigned: Option<JobRec>,
}

struct Decision {
    chosen: u16,
    options: u16,
}

struct St {
    baton: usize,
    workers: Vec<Worker>,
    deques: Vec<VecDeque<JobRec>>,
    prefix: Vec<u16>,
    decisions: Vec<Decision>,
    preemptions: usize,
    bound: usize,
    steps: usize,
    /// Steps other than failed lock attempts.
    epoch: usize,
    steals: usize,
    switches: usize,
    next_job: usize,
    finished: bool,
    diverged: bool,
    deadlock: bool,
    alive: usize,
}

pub struct Shared {
    st: Mutex<St>,
    /// One condition variable per worker (baton hand-over), and one for the explorer.
    cv: Vec<Condvar>,
    done: Condvar,
    splits: usize,
    progress: AtomicUsize,
}

const NONE: usize = usize::MAX;

#[derive(Clone, Copy, PartialEq, Debug)]
enum Opt {
    Run(usize),
    Steal(usize, usize),
}

impl St {
    fn options(&self, cur: usize) -> (Vec<Opt>, bool) {
        let mut out = Vec::with_capacity(4);
        let runnable = |w: usize| match &self.workers[w].status {
            Status::Ready => true,
            Status::WaitLatch(l) => l.load(Ordering::SeqCst),
            Status::WaitLock(at) => self.epoch > *at,
            _ => false,
        };
        let mut cont = false;
        if cur != NONE && matches!(self.workers[cur].status, Status::Ready) {
            out.push(Opt::Run(cur));
            cont = true;
        } else if cur != NONE && runnable(cur) {
            out.push(Opt::Run(cur));
        }
        let mut unstarted_offered = false;
        for w in 0..self.workers.len() {
            if w != cur && runnable(w) {
                out.push(Opt::Run(w));
                continue;
            }
            let may_steal = match &self.workers[w].status {
                Status::Idle => true,
                Status::WaitLatch(l) => !l.load(Ordering::SeqCst),
                _ => false,
            };
            if may_steal {
                if !self.workers[w].started {
                    // Workers that have not executed anything yet are interchangeable: offer only the first.
                    if unstarted_offered {
                        continue;
                    }
                    unstarted_offered = true;
                }
                for v in 0..self.deques.len() {
                    if v != w && !self.deques[v].is_empty() {
                        out.push(Opt::Steal(w, v));
                    }
                }
            }
        }
        (out, cont)
    }

    fn decide(&mut self, cur: usize) -> Option<Opt> {
        let (mut opts, cont) = self.options(cur);
        if opts.is_empty() {
            return None;
        }
        if cont && self.preemptions >= self.bound {
            opts.truncate(1);
        }
        let mut chosen = 0;
        if opts.len() > 1 {
            let k = self.decisions.len();
            if k < self.prefix.len() {
                chosen = self.prefix[k] as usize;
                if chosen >= opts.len() {
                    self.diverged = true;
                    chosen = 0;
                }
            }
            self.decisions.push(Decision { chosen: chosen as u16, options: opts.len() as u16 });
        }
        if cont && chosen > 0 {
            self.preemptions += 1;
        }
        Some(opts[chosen])
    }
}

fn current() -> Option<(Arc<Shared>, usize)> {
    CUR.try_with(|c| c.borrow().clone()).ok().flatten()
}

/// Is the calling thread a worker of an exploration?
#[inline]
pub fn active() -> bool {
    CUR.try_with(|c| c.try_borrow().map(|c| c.is_some()).unwrap_or(false)).unwrap_or(false)
}

pub fn num_threads() -> usize {
    current().map(|(s, _)| s.splits).unwrap_or(1)
}

pub fn worker_index() -> Option<usize> {
    current().map(|(_, w)| w)
}

/// A scheduling point.
pub fn yield_point() {
    if let Some((sh, w)) = current() {
        if std::thread::panicking() {
            return;
        }
        let st = sh.st.lock().unwrap();
        reschedule(&sh, st, w, Status::Ready);
    }
}

/// Acquire a lock under the scheduler.
pub fn lock(mut try_lock: impl FnMut() -> bool) {
    yield_point();
    loop {
        if try_lock() {
            return;
        }
        let (sh, w) = current().expect("lock() outside of an exploration");
        let st = sh.st.lock().unwrap();
        let at = st.epoch;
        reschedule(&sh, st, w, Status::WaitLock(at));
    }
}

/// Worker `w` gives up the baton with the given status and returns when it is to go on; a job that it is to execute is
/// executed before returning (the caller loops if it needs more than that). Returns false if the run is over.
fn reschedule(sh: &Arc<Shared>, mut st: std::sync::MutexGuard<'_, St>, w: usize, status: Status) -> bool {
    sh.progress.fetch_add(1, Ordering::Relaxed);
    st.steps += 1;
    if !matches!(status, Status::WaitLock(_)) {
        st.epoch += 1;
    }
    let was_external = matches!(st.workers[w].status, Status::External);
    st.workers[w].status = status;
    if was_external || st.baton != w {
        // The watchdog took the baton from us: queue up.
        if st.baton == NONE {
            hand_over(sh, &mut st, w);
        }
    } else {
        hand_over(sh, &mut st, w);
    }
    loop {
        if st.baton == w {
            break;
        }
        if st.finished && w != 0 {
            return false;
        }
        st = sh.cv[w].wait(st).unwrap();
    }
    st.workers[w].status = Status::Ready;
    let job = st.workers[w].assigned.take();
    drop(st);
    if let Some(job) = job {
        unsafe { (job.exec)(job.ptr, true) };
        // The latch is set under the lock, so that a decision never sees a half-finished job.
        let st = sh.st.lock().unwrap();
        job.latch.store(true, Ordering::SeqCst);
        drop(st);
    }
    true
}

/// Pick who goes on, and give it the baton. `cur` is the worker giving it up (it may be picked again), or NONE.
fn hand_over(sh: &Arc<Shared>, st: &mut St, cur: usize) {
    if st.finished {
        return;
    }
    match st.decide(cur) {
        None => {
            // Nobody can go on.
            st.baton = NONE;
            if !st.workers.iter().any(|w| matches!(w.status, Status::External)) {
                st.deadlock = true;
            }
            sh.done.notify_all();
        }
        Some(Opt::Run(v)) => give(sh, st, cur, v, None),
        Some(Opt::Steal(v, victim)) => {
            let job = st.deques[victim].pop_front().unwrap();
            st.steals += 1;
            give(sh, st, cur, v, Some(job))
        }
    }
}

fn give(sh: &Arc<Shared>, st: &mut St, cur: usize, v: usize, job: Option<JobRec>) {
    st.baton = v;
    st.workers[v].assigned = job;
    if v != cur {
        st.switches += 1;
    }
    if !st.workers[v].started {
        st.workers[v].started = true;
        st.alive += 1;
        let sh2 = sh.clone();
        std::thread::Builder::new()
            .stack_size(1 << 21)
            .spawn(move || thief_main(sh2, v))
            .expect("spawn worker");
    } else if v != cur {
        sh.cv[v].notify_one();
    }
}

fn thief_main(sh: Arc<Shared>, w: usize) {
    CUR.with(|c| *c.borrow_mut() = Some((sh.clone(), w)));
    // We were started with the baton and a job.
    let job = {
        let mut st = sh.st.lock().unwrap();
        while st.baton != w {
            if st.finished {
                break;
            }
            st = sh.cv[w].wait(st).unwrap();
        }
        st.workers[w].status = Status::Ready;
        st.workers[w].assigned.take()
    };
    if let Some(job) = job {
        unsafe { (job.exec)(job.ptr, true) };
        let st = sh.st.lock().unwrap();
        job.latch.store(true, Ordering::SeqCst);
        drop(st);
    }
    loop {
        let st = sh.st.lock().unwrap();
        if st.finished {
            drop(st);
            break;
        }
        if !reschedule(&sh, st, w, Status::Idle) {
            break;
        }
    }
    CUR.with(|c| *c.borrow_mut() = None);
    let mut st = sh.st.lock().unwrap();
    st.workers[w].status = Status::Gone;
    st.alive -= 1;
    sh.done.notify_all();
}

struct StackJob<F, R> {
    f: UnsafeCell<Option<F>>,
    r: UnsafeCell<Option<Result<R, Box<dyn Any + Send>>>>,
}

unsafe fn exec_stack<F: FnOnce(bool) -> R, R>(p: *const (), migrated: bool) {
    let j = &*(p as *const StackJob<F, R>);
    let f = (*j.f.get()).take().expect("job executed twice");
    *j.r.get() = Some(catch_unwind(AssertUnwindSafe(|| f(migrated))));
}

/// Fork-join with the semantics of rayon's `join_context` on a worker thread.
pub fn join_context<A, B, RA, RB>(a: A, b: B) -> (RA, RB)
where
    A: FnOnce(bool) -> RA + Send,
    B: FnOnce(bool) -> RB + Send,
    RA: Send,
    RB: Send,
{
    let (sh, w) = current().expect("join outside of an exploration");
    let job = StackJob { f: UnsafeCell::new(Some(b)), r: UnsafeCell::new(None) };
    let latch = Arc::new(AtomicBool::new(false));
    let id;
    {
        let mut st = sh.st.lock().unwrap();
        id = st.next_job;
        st.next_job += 1;
        st.deques[w].push_back(JobRec {
            id,
            ptr: &job as *const _ as *const (),
            exec: exec_stack::<B, RB>,
            latch: latch.clone(),
        });
        reschedule(&sh, st, w, Status::Ready);
    }
    let ra = catch_unwind(AssertUnwindSafe(|| a(false)));
    loop {
        let mut st = sh.st.lock().unwrap();
        if latch.load(Ordering::SeqCst) {
            break;
        }
        if st.deques[w].back().map(|j| j.id) == Some(id) {
            st.deques[w].pop_back();
            drop(st);
            unsafe { exec_stack::<B, RB>(&job as *const _ as *const (), false) };
            break;
        }
        reschedule(&sh, st, w, Status::WaitLatch(latch.clone()));
    }
    let rb = job.r.into_inner().expect("stolen job has no result");
    match (ra, rb) {
        (Ok(a), Ok(b)) => (a, b),
        (Err(e), _) => resume_unwind(e),
        (_, Err(e)) => resume_unwind(e),
    }
}

#[derive(Clone, Debug)]
pub struct Config {
    /// Number of worker threads (one of them runs the closure).
    pub workers: usize,
    /// What `rayon::current_num_threads()` reports (controls how finely rayon splits).
    pub splits: usize,
    /// Maximal number of preemptions in a run.
    pub preemptions: usize,
    /// Stop after this many runs (0: no limit).
    pub max_runs: usize,
    /// Stop after this time.
    pub time: Option<Duration>,
}

impl Config {
    pub fn new(workers: usize, splits: usize, preemptions: usize) -> Self {
        Config { workers, splits, preemptions, max_runs: 0, time: None }
    }
}

#[derive(Clone, Debug, Default)]
pub struct Stats {
    pub runs: usize,
    pub decisions: usize,
    pub steps: usize,
    pub steals: usize,
    pub switches: usize,
    pub max_depth: usize,
    pub exhausted: bool,
    pub diverged: usize,
    pub outcomes: usize,
    pub runs_with_steal: usize,
}

impl Stats {
    pub fn add(&mut self, o: &Stats) {
        self.runs += o.runs;
        self.decisions += o.decisions;
        self.steps += o.steps;
        self.steals += o.steals;
        self.switches += o.switches;
        self.max_depth = self.max_depth.max(o.max_depth);
        self.diverged += o.diverged;
        self.outcomes += o.outcomes;
        self.runs_with_steal += o.runs_with_steal;
    }
}

#[derive(Clone, Debug)]
pub struct Failure {
    pub message: String,
    pub schedule: Vec<u16>,
}

/// The result of one run: Ok(digest of the outcome) or Err(violation).
pub type RunResult = Result<String, String>;

pub struct Once {
    pub result: RunResult,
    pub schedule: Vec<u16>,
    pub options: Vec<u16>,
    pub steps: usize,
    pub steals: usize,
    pub switches: usize,
    pub diverged: bool,
}

pub fn panic_message(e: &(dyn Any + Send)) -> String {
    if let Some(s) = e.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = e.downcast_ref::<String>() {
        s.clone()
    } else {
        "panic with a non-string payload".to_string()
    }
}

/// Run the closure once under the given schedule prefix.
pub fn run_once(cfg: &Config, prefix: &[u16], body: &(dyn Fn() -> RunResult + Sync)) -> Once {
    let n = cfg.workers.max(1);
    let sh = Arc::new(Shared {
        st: Mutex::new(St {
            baton: 0,
            workers: (0..n)
                .map(|i| Worker { status: if i == 0 { Status::Ready } else { Status::Idle }, started: i == 0, assigned: None })
                .collect(),
            deques: (0..n).map(|_| VecDeque::new()).collect(),
            prefix: prefix.to_vec(),
            decisions: Vec::new(),
            preemptions: 0,
            bound: cfg.preemptions,
            steps: 0,
            epoch: 0,
            steals: 0,
            switches: 0,
            next_job: 0,
            finished: false,
            diverged: false,
            deadlock: false,
            alive: 1,
        }),
        cv: (0..n).map(|_| Condvar::new()).collect(),
        done: Condvar::new(),
        splits: cfg.splits.max(1),
        progress: AtomicUsize::new(0),
    });
    let slot: Arc<Mutex<Option<RunResult>>> = Arc::new(Mutex::new(None));
    {
        // The body outlives the run: we do not return before all threads are gone, except on a hang, where the caller
        // must end the process.
        let body: &'static (dyn Fn() -> RunResult + Sync) = unsafe { std::mem::transmute(body) };
        let sh2 = sh.clone();
        let slot2 = slot.clone();
        std::thread::Builder::new()
            .stack_size(1 << 22)
            .spawn(move || {
                CUR.with(|c| *c.borrow_mut() = Some((sh2.clone(), 0)));
                let r = catch_unwind(AssertUnwindSafe(|| body()));
                CUR.with(|c| *c.borrow_mut() = None);
                let r = match r {
                    Ok(r) => r,
                    Err(e) => Err(format!("panic: {}", panic_message(&*e))),
                };
                *slot2.lock().unwrap() = Some(r);
                let mut st = sh2.st.lock().unwrap();
                st.workers[0].status = Status::Gone;
                st.finished = true;
                st.baton = NONE;
                st.alive -= 1;
                for cv in &sh2.cv {
                    cv.notify_all();
                }
                sh2.done.notify_all();
            })
            .expect("spawn worker 0");
    }
    // Wait for the end, watching for workers that block in something we do not control.
    let mut st = sh.st.lock().unwrap();
    let mut last = sh.progress.load(Ordering::Relaxed);
    let mut since = Instant::now();
    let mut stuck_since = Instant::now();
    let mut hang = None;
    while !(st.finished && st.alive == 0) {
        if st.deadlock {
            hang = Some("deadlock: no worker can go on".to_string());
            break;
        }
        let (s, _) = sh.done.wait_timeout(st, Duration::from_millis(200)).unwrap();
        st = s;
        let p = sh.progress.load(Ordering::Relaxed);
        if p != last {
            last = p;
            since = Instant::now();
            stuck_since = since;
        } else if since.elapsed() > Duration::from_secs(3) && !st.finished {
            since = Instant::now();
            let cur = st.baton;
            if cur != NONE {
                st.workers[cur].status = Status::External;
                st.diverged = true;
                hand_over(&sh, &mut st, NONE);
            } else {
                hand_over(&sh, &mut st, NONE);
            }
        }
        if stuck_since.elapsed() > Duration::from_secs(40) {
            hang = Some("hang: no scheduling point reached for 40 s".to_string());
            break;
        }
    }
    let schedule: Vec<u16> = st.decisions.iter().map(|d| d.chosen).collect();
    let options: Vec<u16> = st.decisions.iter().map(|d| d.options).collect();
    let result = match hang {
        Some(h) => Err(h),
        None => slot.lock().unwrap().take().unwrap_or_else(|| Err("no result".into())),
    };
    Once { result, schedule, options, steps: st.steps, steals: st.steals, switches: st.switches, diverged: st.diverged }
}

/// Enumerate all schedules of the closure within the bounds of `cfg`; stop at the first violation.
pub fn explore(cfg: &Config, body: &(dyn Fn() -> RunResult + Sync)) -> (Stats, Option<Failure>) {
    let start = Instant::now();
    let mut stats = Stats::default();
    let mut outcomes = HashSet::new();
    let mut prefix: Vec<u16> = Vec::new();
    loop {
        let once = run_once(cfg, &prefix, body);
        stats.runs += 1;
        stats.steps += once.steps;
        stats.steals += once.steals;
        stats.switches += once.switches;
        stats.runs_with_steal += (once.steals > 0) as usize;
        stats.max_depth = stats.max_depth.max(once.schedule.len());
        stats.decisions += once.schedule.len().saturating_sub(prefix.len().saturating_sub(1));
        stats.diverged += once.diverged as usize;
        match once.result {
            Ok(d) => {
                outcomes.insert(d);
            }
            Err(message) => {
                stats.outcomes = outcomes.len();
                return (stats, Some(Failure { message, schedule: once.schedule }));
            }
        }
        // Backtrack.
        let mut sched = once.schedule;
        let opts = once.options;
        loop {
            match sched.pop() {
                None => {
                    stats.exhausted = true;
                    stats.outcomes = outcomes.len();
                    return (stats, None);
                }
                Some(c) => {
                    let k = sched.len();
                    if c + 1 < opts[k] {
                        sched.push(c + 1);
                        break;
                    }
                }
            }
        }
        prefix = sched;
        if cfg.max_runs > 0 && stats.runs >= cfg.max_runs || cfg.time.map_or(false, |t| start.elapsed() > t) {
            stats.outcomes = outcomes.len();
            return (stats, None);
        }
    }
}

#[cfg(test)]
mod tests {
    use super::*;

    fn lost_update() -> RunResult {
        let x = AtomicUsize::new(0);
        let inc = || {
            let v = x.load(Ordering::SeqCst);
            yield_point();
            x.store(v + 1, Ordering::SeqCst);
        };
        join_context(|_| inc(), |_| inc());
        match x.load(Ordering::SeqCst) {
            2 => Ok("2".into()),
            v => Err(format!("lost update: {v}")),
        }
    }

    #[test]
    fn finds_lost_update() {
        let (_, f) = explore(&Config::new(2, 2, 2), &lost_update);
        let f = f.expect("lost update not found");
        let again = run_once(&Config::new(2, 2, 2), &f.schedule, &lost_update);
        assert!(again.result.is_err());
    }

    #[test]
    fn nested_counts() {
        let body = || -> RunResult {
            fn rec(d: usize) -> usize {
                if d == 0 {
                    yield_point();
                    return 1;
                }
                let (a, b) = join_context(|_| rec(d - 1), |_| rec(d - 1));
                a + b
            }
            let n = rec(2);
            if n == 4 { Ok(format!("{:?}", worker_index())) } else { Err("bad".into()) }
        };
        for p in 0..4 {
            for w in 1..4 {
                let (s, f) = explore(&Config::new(w, 2, p), &body);
                assert!(f.is_none());
                assert!(s.exhausted);
                println!("workers {w} preemptions {p}: {s:?}");
            }
        }
    }

    #[test]
    fn deadlock_is_found() {
        let a = AtomicBool::new(false);
        let b = AtomicBool::new(false);
        let body = || -> RunResult {
            a.store(false, Ordering::SeqCst);
            b.store(false, Ordering::SeqCst);
            let l = |x: &AtomicBool| lock(|| x.compare_exchange(false, true, Ordering::SeqCst, Ordering::SeqCst).is_ok());
            let u = |x: &AtomicBool| x.store(false, Ordering::SeqCst);
            join_context(|_| { l(&a); l(&b); u(&b); u(&a); }, |_| { l(&b); l(&a); u(&a); u(&b); });
            Ok(String::new())
        };
        let (_, f) = explore(&Config::new(2, 2, 2), &body);
        assert!(f.unwrap().message.contains("deadlock"));
    }

    #[test]
    fn uncontrolled_lock_does_not_hang() {
        let m = Mutex::new(0);
        let body = || -> RunResult {
            let inc = || { let mut g = m.lock().unwrap(); yield_point(); *g += 1; };
            join_context(|_| inc(), |_| inc());
            Ok(String::new())
        };
        let mut cfg = Config::new(2, 2, 1);
        cfg.max_runs = 3;
        let (s, f) = explore(&cfg, &body);
        assert!(f.is_none(), "{f:?}");
        println!("{s:?}");
    }
}
