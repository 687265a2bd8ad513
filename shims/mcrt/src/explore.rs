//! Exhaustive depth-first exploration over choice vectors, with a bound on deviations.
use std::cell::{Cell, RefCell};
use std::collections::{HashSet, VecDeque};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::SeqCst};
use std::sync::{Arc, Condvar, Mutex};
use std::time::{Duration, Instant};

/// One answered choice: number of alternatives, alternative taken, and whether taking a
/// non-default alternative counts as a deviation.
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Tr {
    pub n: u16,
    pub c: u16,
    pub cost: bool,
}

struct Ex {
    prefix: Vec<(u16, u16)>,
    trace: Vec<Tr>,
    log: Option<Vec<String>>,
    diverged: bool,
    costed: bool,
    order: Option<usize>,
    turn: bool,
}

thread_local! {
    static EX: RefCell<Option<Ex>> = const { RefCell::new(None) };
    static ACTIVE: Cell<bool> = const { Cell::new(false) };
    static LOGGING: Cell<bool> = const { Cell::new(false) };
    static STEPS: Cell<u64> = const { Cell::new(0) };
}

pub fn in_exec() -> bool {
    ACTIVE.with(|a| a.get())
}

pub fn logging() -> bool {
    LOGGING.with(|a| a.get())
}

/// Sets whether log lines are kept; returns what it was.
pub fn set_logging(on: bool) -> bool {
    LOGGING.with(|l| l.replace(on))
}

pub fn log_line(f: impl FnOnce() -> String) {
    if logging() {
        let s = f();
        if std::env::var_os("MC_ECHO").is_some() {
            eprintln!("{}", s);
        }
        EX.with(|e| {
            if let Some(e) = e.borrow_mut().as_mut() {
                if let Some(l) = e.log.as_mut() {
                    if l.len() < 5000 {
                        l.push(s);
                    }
                }
            }
        });
    }
}

/// Count one transition of the system under check.
pub fn step() {
    STEPS.with(|s| s.set(s.get() + 1));
}
pub fn step_n(n: u64) {
    STEPS.with(|s| s.set(s.get() + n));
}

/// Turn costed choices (schedules, transport deviations) on or off; while off they take the default
/// and are not explored.
pub fn costed_choices(on: bool) {
    EX.with(|e| {
        if let Some(e) = e.borrow_mut().as_mut() {
            e.costed = on;
        }
    });
}

/// A free (data) choice: all alternatives are always explored.
pub fn choose(n: usize) -> usize {
    choose_any(n, false)
}

/// Which order `select!` prefers by default: as written, reversed, or alternating.  Chosen once per
/// execution, among the first `n`.
pub fn choose_order(n: usize) {
    if n > 1 && in_exec() && order().is_none() {
        let k = choose(n);
        EX.with(|e| e.borrow_mut().as_mut().unwrap().order = Some(k));
    }
}

fn order() -> Option<usize> {
    EX.with(|e| e.borrow().as_ref().and_then(|e| e.order))
}

/// Whether a `select!` polled now prefers its last branch.
pub fn reversed() -> bool {
    EX.with(|e| match e.borrow_mut().as_mut() {
        Some(e) => {
            e.turn = !e.turn;
            e.order == Some(1) || e.order == Some(2) && e.turn
        }
        None => false,
    })
}

/// A deviation choice: alternative 0 is the default, any other costs one deviation.
pub fn choose_cost(n: usize) -> usize {
    choose_any(n, true)
}

fn choose_any(n: usize, cost: bool) -> usize {
    if n <= 1 || !in_exec() {
        return 0;
    }
    assert!(n <= u16::MAX as usize);
    EX.with(|e| {
        let mut e = e.borrow_mut();
        let e = e.as_mut().unwrap();
        if cost && !e.costed {
            return 0;
        }
        let pos = e.trace.len();
        let mut c = 0u16;
        if pos < e.prefix.len() {
            let (pn, pc) = e.prefix[pos];
            if pn != u16::MAX && pn as usize != n {
                e.diverged = true;
            }
            c = pc;
            if c as usize >= n {
                e.diverged = true;
                c = 0;
            }
        }
        e.trace.push(Tr { n: n as u16, c, cost });
        c as usize
    })
}

/// What one execution found.
#[derive(Clone, Debug)]
pub struct Viol {
    /// Stable identification of the failing input or history, for the known-findings file.
    pub key: String,
    pub msg: String,
}

pub type Verdict = Result<u64, Viol>;

pub struct Scenario {
    pub name: String,
    pub bound: u32,
    pub run: Box<dyn Fn() -> Verdict + Send + Sync>,
}

#[derive(Clone)]
struct Item {
    base: Arc<Vec<Tr>>,
    pos: u32,
    alt: u16,
}

#[derive(Default, Clone, Debug)]
pub struct Stats {
    pub executions: u64,
    pub states: u64,
    pub transitions: u64,
    pub diverged: u64,
    pub distinct: u64,
    pub max_depth: u64,
    pub by_deviation: Vec<u64>,
    pub complete: bool,
    pub completed_bound: i64,
    pub wall: f64,
}

#[derive(Clone, Debug)]
pub struct Found {
    pub viol: Viol,
    pub choices: Vec<(u16, u16)>,
    pub deviations: u32,
}

pub struct One {
    pub verdict: Verdict,
    pub trace: Vec<Tr>,
    pub diverged: bool,
    pub log: Vec<String>,
    pub steps: u64,
}

/// Run one execution with the given answers.
pub fn run_one(sc: &Scenario, prefix: Vec<(u16, u16)>, log: bool) -> One {
    EX.with(|e| {
        *e.borrow_mut() = Some(Ex {
            prefix,
            trace: Vec::with_capacity(64),
            log: if log { Some(Vec::new()) } else { None },
            diverged: false,
            costed: true,
            order: None,
            turn: false,
        })
    });
    ACTIVE.with(|a| a.set(true));
    LOGGING.with(|a| a.set(log));
    STEPS.with(|s| s.set(0));
    crate::sched::clear_panics();
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (sc.run)()));
    ACTIVE.with(|a| a.set(false));
    LOGGING.with(|a| a.set(false));
    let ex = EX.with(|e| e.borrow_mut().take()).unwrap();
    let verdict = match r {
        Ok(v) => v,
        Err(_) => Err(Viol {
            key: "uncaught-panic".into(),
            msg: format!("uncaught panic while checking: {:?}", crate::sched::take_panics()),
        }),
    };
    One {
        verdict,
        trace: ex.trace,
        diverged: ex.diverged,
        log: ex.log.unwrap_or_default(),
        steps: STEPS.with(|s| s.get()),
    }
}

/// Where each worker notes what it is executing, so that a crash or hang can be attributed.
pub trait Beacon: Sync {
    fn note(&self, worker: usize, prefix: &[(u16, u16)]);
    fn idle(&self, worker: usize);
}

pub struct NoBeacon;
impl Beacon for NoBeacon {
    fn note(&self, _: usize, _: &[(u16, u16)]) {}
    fn idle(&self, _: usize) {}
}

pub struct Cfg<'a> {
    pub workers: usize,
    pub deadline: Instant,
    pub max_found: usize,
    pub is_known: &'a (dyn Fn(&Viol) -> bool + Sync),
    pub beacon: &'a dyn Beacon,
}

struct Shared {
    queue: Mutex<VecDeque<Item>>,
    cv: Condvar,
    idle: AtomicUsize,
    done: AtomicBool,
    stop: AtomicBool,
    len: AtomicUsize,
}

pub fn explore(sc: &Scenario, cfg: &Cfg) -> (Stats, Vec<Found>, Vec<Viol>) {
    let start = Instant::now();
    let mut stats = Stats {
        complete: true,
        completed_bound: -1,
        ..Default::default()
    };
    let found: Mutex<Vec<Found>> = Mutex::new(Vec::new());
    let known: Mutex<Vec<Viol>> = Mutex::new(Vec::new());
    let digests: Mutex<HashSet<u64>> = Mutex::new(HashSet::new());
    let mut current: Vec<Item> = vec![Item {
        base: Arc::new(Vec::new()),
        pos: u32::MAX,
        alt: 0,
    }];
    for dev in 0..=sc.bound {
        if current.is_empty() {
            // nothing left: the space is exhausted for every larger bound too
            stats.completed_bound = sc.bound as i64;
            break;
        }
        let sh = Shared {
            len: AtomicUsize::new(current.len()),
            queue: Mutex::new(current.into()),
            cv: Condvar::new(),
            idle: AtomicUsize::new(0),
            done: AtomicBool::new(false),
            stop: AtomicBool::new(false),
        };
        let next: Mutex<Vec<Item>> = Mutex::new(Vec::new());
        let execs = AtomicU64::new(0);
        let states = AtomicU64::new(0);
        let trans = AtomicU64::new(0);
        let diverged = AtomicU64::new(0);
        let depth = AtomicU64::new(0);
        let work = |w: usize| {
            let mut local: Vec<Item> = Vec::new();
            let mut mynext: Vec<Item> = Vec::new();
            let mut mydig: HashSet<u64> = HashSet::new();
            let (mut e, mut st, mut tr, mut dv, mut dp) = (0u64, 0u64, 0u64, 0u64, 0u64);
            'outer: loop {
                if sh.stop.load(SeqCst) {
                    break;
                }
                let item = match local.pop() {
                    Some(i) => i,
                    None => {
                        let mut q = sh.queue.lock().unwrap();
                        loop {
                            let len = q.len();
                            if len > 0 {
                                let take = (len / (cfg.workers * 2)).clamp(1, 64);
                                for _ in 0..take {
                                    local.push(q.pop_front().unwrap());
                                }
                                sh.len.store(q.len(), SeqCst);
                                break local.pop().unwrap();
                            }
                            if sh.done.load(SeqCst) || sh.stop.load(SeqCst) {
                                break 'outer;
                            }
                            if sh.idle.fetch_add(1, SeqCst) + 1 == cfg.workers {
                                sh.done.store(true, SeqCst);
                                sh.cv.notify_all();
                                break 'outer;
                            }
                            q = sh.cv.wait(q).unwrap();
                            if !sh.done.load(SeqCst) && !sh.stop.load(SeqCst) {
                                sh.idle.fetch_sub(1, SeqCst);
                            }
                        }
                    }
                };
                let mut prefix: Vec<(u16, u16)>;
                if item.pos == u32::MAX {
                    prefix = Vec::new();
                } else {
                    let p = item.pos as usize;
                    prefix = item.base[..p].iter().map(|t| (t.n, t.c)).collect();
                    prefix.push((item.base[p].n, item.alt));
                }
                let plen = prefix.len();
                cfg.beacon.note(w, &prefix);
                let one = run_one(sc, prefix, false);
                cfg.beacon.idle(w);
                e += 1;
                st += (one.trace.len() as u64 + 1).saturating_sub(plen as u64).max(1);
                tr += one.steps.max(1);
                dp = dp.max(one.trace.len() as u64);
                if one.diverged {
                    dv += 1;
                }
                match one.verdict {
                    Ok(d) => {
                        if mydig.len() < 2_000_000 {
                            mydig.insert(d);
                        }
                    }
                    Err(v) => {
                        if (cfg.is_known)(&v) {
                            let mut k = known.lock().unwrap();
                            if !k.iter().any(|x| x.key == v.key) {
                                k.push(v);
                            }
                        } else {
                            let mut f = found.lock().unwrap();
                            f.push(Found {
                                viol: v,
                                choices: one.trace.iter().map(|t| (t.n, t.c)).collect(),
                                deviations: dev,
                            });
                            if f.len() >= cfg.max_found {
                                sh.stop.store(true, SeqCst);
                                sh.cv.notify_all();
                            }
                        }
                    }
                }
                if one.diverged {
                    continue;
                }
                if e & 31 == 0 && Instant::now() > cfg.deadline {
                    sh.stop.store(true, SeqCst);
                    sh.cv.notify_all();
                }
                let base = Arc::new(one.trace);
                for pos in plen..base.len() {
                    let t = base[pos];
                    if t.cost && dev >= sc.bound {
                        continue;
                    }
                    for alt in (1..t.n).rev() {
                        let it = Item {
                            base: base.clone(),
                            pos: pos as u32,
                            alt,
                        };
                        if t.cost {
                            mynext.push(it);
                        } else {
                            local.push(it);
                        }
                    }
                }
                if sh.idle.load(SeqCst) > 0 && local.len() > 1 && sh.len.load(SeqCst) == 0 {
                    let give = local.len() / 2;
                    let mut q = sh.queue.lock().unwrap();
                    q.extend(local.drain(..give));
                    sh.len.store(q.len(), SeqCst);
                    sh.cv.notify_all();
                }
            }
            execs.fetch_add(e, SeqCst);
            states.fetch_add(st, SeqCst);
            trans.fetch_add(tr, SeqCst);
            diverged.fetch_add(dv, SeqCst);
            depth.fetch_max(dp, SeqCst);
            next.lock().unwrap().append(&mut mynext);
            digests.lock().unwrap().extend(mydig);
        };
        if cfg.workers == 1 {
            work(0);
        } else {
            std::thread::scope(|s| {
                for w in 0..cfg.workers {
                    let work = &work;
                    std::thread::Builder::new()
                        .stack_size(64 << 20)
                        .spawn_scoped(s, move || work(w))
                        .unwrap();
                }
            });
        }
        stats.executions += execs.into_inner();
        stats.states += states.into_inner();
        stats.transitions += trans.into_inner();
        stats.diverged += diverged.into_inner();
        stats.max_depth = stats.max_depth.max(depth.into_inner());
        stats.by_deviation.push(stats.executions - stats.by_deviation.iter().sum::<u64>());
        if sh.stop.load(SeqCst) {
            stats.complete = false;
            break;
        }
        stats.completed_bound = dev as i64;
        current = next.into_inner().unwrap();
    }
    stats.distinct = digests.into_inner().unwrap().len() as u64;
    stats.wall = start.elapsed().as_secs_f64();
    (stats, found.into_inner().unwrap(), known.into_inner().unwrap())
}

pub fn far() -> Instant {
    Instant::now() + Duration::from_secs(86_400)
}

/// FNV-1a, for outcome digests.
pub fn digest(s: &str) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in s.as_bytes() {
        h ^= *b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    h
}
