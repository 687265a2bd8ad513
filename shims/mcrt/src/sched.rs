//! Controlled scheduler: every thread and task of a system under check is a coroutine on one OS
//! thread; switches happen only at scheduling points and are chosen by the explorer.
use std::cell::{Cell, RefCell};
use std::future::Future;
use std::pin::Pin;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Wake, Waker};
use std::time::Duration;

use crate::explore::{choose, choose_cost, in_exec, log_line, logging, step};

type Gen = generator::Generator<'static, (), ()>;
type Job = Box<dyn FnOnce()>;

enum St {
    Ready,
    /// Waiting for a condition; the flag tells whether a spurious wake-up is legal.
    Wait(Box<dyn Fn() -> bool>, bool),
    Futex(usize, u32),
    Settle,
    Done,
}

struct Co {
    name: String,
    st: St,
    spurious: bool,
    at: &'static str,
}

#[derive(Clone)]
pub struct WorldCfg {
    /// Switching to another enabled coroutine when the current one blocks costs a deviation.
    pub switch_cost: bool,
    /// Preemption at scheduling points is offered (cost 1 each).
    pub preempt: bool,
    /// Firing the next timer early is offered (cost 1 each).
    pub early_timers: bool,
    /// Spurious polls of tasks are offered (cost 1 each).
    pub spurious: bool,
    pub max_steps: u64,
    /// How many default orders of `select!` are explored (see `choose_order`).
    pub orders: usize,
}

impl Default for WorldCfg {
    fn default() -> Self {
        WorldCfg {
            switch_cost: true,
            preempt: true,
            early_timers: false,
            spurious: false,
            max_steps: 20_000,
            orders: 1,
        }
    }
}

enum Ev {
    Delay(Arc<DelayState>),
    Act(Option<Box<dyn FnOnce()>>),
}

struct Timed {
    at: Duration,
    seq: u64,
    ev: Ev,
}

struct World {
    cfg: WorldCfg,
    cos: Vec<Co>,
    current: usize,
    next: Option<usize>,
    deferred: Vec<Waker>,
    timeline: Vec<Timed>,
    seq: u64,
    now: Duration,
    steps: u64,
    cancel: bool,
    stuck: Option<String>,
    livelock: bool,
    nopoint: u32,
}

thread_local! {
    static W: RefCell<Option<World>> = const { RefCell::new(None) };
    static ACTIVE: Cell<bool> = const { Cell::new(false) };
    static IN_CO: Cell<bool> = const { Cell::new(false) };
    static GENS: RefCell<Vec<Option<Gen>>> = const { RefCell::new(Vec::new()) };
    static POOL: Pool = const { Pool(RefCell::new(Vec::new())) };
    static JOB: RefCell<Option<Job>> = const { RefCell::new(None) };
    static PANICS: RefCell<Vec<String>> = const { RefCell::new(Vec::new()) };
}

/// Idle coroutines.  They run to their end when the thread ends: dropping a suspended generator
/// would tamper with the panic hook.
struct Pool(RefCell<Vec<Gen>>);
impl Drop for Pool {
    fn drop(&mut self) {
        for mut g in self.0.borrow_mut().drain(..) {
            g.resume();
            if !g.is_done() {
                std::mem::forget(g);
            }
        }
    }
}

struct Cancelled;

pub fn in_world() -> bool {
    ACTIVE.with(|a| a.get())
}

pub(crate) fn in_coroutine() -> bool {
    IN_CO.with(|a| a.get())
}

pub fn clear_panics() {
    PANICS.with(|p| p.borrow_mut().clear());
}
pub fn take_panics() -> Vec<String> {
    PANICS.with(|p| std::mem::take(&mut *p.borrow_mut()))
}
pub fn panic_count() -> usize {
    PANICS.with(|p| p.borrow().len())
}

/// Records panics instead of printing them (only during executions).
pub fn install_panic_hook() {
    let old = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |info| {
        if in_exec() {
            let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
                s.to_string()
            } else if let Some(s) = info.payload().downcast_ref::<String>() {
                s.clone()
            } else {
                "?".into()
            };
            let loc = info
                .location()
                .map(|l| format!("{}:{}", l.file(), l.line()))
                .unwrap_or_default();
            let m = format!("panic at {}: {}", loc, msg);
            if logging() {
                let m = m.clone();
                log_line(move || m);
            }
            PANICS.with(|p| {
                if let Ok(mut p) = p.try_borrow_mut() {
                    p.push(m)
                }
            });
        } else {
            old(info)
        }
    }));
}

/// Run `f` catching panics; `Err` carries the recorded message.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    let before = panic_count();
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(p) => {
            if p.downcast_ref::<CancelMark>().is_some() {
                std::panic::resume_unwind(p);
            }
            let m = PANICS.with(|p| p.borrow().get(before).cloned());
            Err(m.unwrap_or_else(|| "panic".into()))
        }
    }
}

type CancelMark = Cancelled;

fn with<R>(f: impl FnOnce(&mut World) -> R) -> R {
    W.with(|w| f(w.borrow_mut().as_mut().expect("no world")))
}

#[derive(Debug, Clone)]
pub struct End {
    /// Nothing could run although the main coroutine had not finished.
    pub stuck: Option<String>,
    pub livelock: bool,
    pub panics: Vec<String>,
    pub steps: u64,
    pub now: Duration,
}

fn new_gen() -> Gen {
    if let Some(g) = POOL.with(|p| p.0.borrow_mut().pop()) {
        return g;
    }
    generator::Gn::new_opt(0x18000, || {
        // A resumption without a job ends the coroutine.
        while let Some(job) = JOB.try_with(|j| j.borrow_mut().take()).ok().flatten() {
            job();
            generator::yield_with(());
        }
    })
}

/// Start a coroutine.  Only inside a world.
pub fn spawn(name: impl Into<String>, spurious: bool, f: impl FnOnce() + 'static) -> usize {
    let name = name.into();
    let id = with(|w| {
        let id = w.cos.len();
        w.cos.push(Co {
            name: name.clone(),
            st: St::Ready,
            spurious,
            at: "start",
        });
        id
    });
    log_line(|| format!("spawn #{} {}", id, name));
    let job: Job = Box::new(move || {
        // f is dropped inside catch_unwind in every case
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            if !with(|w| w.cancel) {
                f()
            } else {
                drop(f)
            }
        }));
        drop(r);
        log_line(|| format!("#{} done", id));
        with(|w| w.cos[id].st = St::Done);
        decide();
    });
    let g = new_gen();
    // The job is handed over on first resume.
    JOBS.with(|j| {
        let mut j = j.borrow_mut();
        while j.len() <= id {
            j.push(None);
        }
        j[id] = Some(job);
    });
    GENS.with(|gs| {
        let mut gs = gs.borrow_mut();
        while gs.len() <= id {
            gs.push(None);
        }
        gs[id] = Some(g);
    });
    id
}

thread_local! {
    static JOBS: RefCell<Vec<Option<Job>>> = const { RefCell::new(Vec::new()) };
}

/// Run a world to its end: until the main coroutine finishes or nothing can run.
pub fn run_world(cfg: WorldCfg, main: impl FnOnce() + 'static) -> End {
    let before = panic_count();
    W.with(|w| {
        *w.borrow_mut() = Some(World {
            cfg,
            cos: Vec::new(),
            current: 0,
            next: None,
            deferred: Vec::new(),
            timeline: Vec::new(),
            seq: 0,
            now: Duration::ZERO,
            steps: 0,
            cancel: false,
            stuck: None,
            livelock: false,
            nopoint: 0,
        })
    });
    ACTIVE.with(|a| a.set(true));
    spawn("main", false, main);
    with(|w| w.next = Some(0));
    run_loop(true);
    let main_done = with(|w| matches!(w.cos[0].st, St::Done));
    let mut leak = false;
    let locked = with(|w| {
        let l = (0..w.cos.len()).any(|i| matches!(w.cos[i].st, St::Futex(..)) && !w.enabled(i));
        if l && w.stuck.is_none() {
            w.stuck = Some(w.describe());
        }
        l
    });
    if main_done && !locked {
        // Unwind what is left, so that nothing leaks.
        with(|w| w.cancel = true);
        let n = with(|w| w.cos.len());
        for id in 0..n {
            for _ in 0..1000 {
                if with(|w| matches!(w.cos[id].st, St::Done)) {
                    break;
                }
                with(|w| w.next = Some(id));
                run_loop(false);
            }
            if !with(|w| matches!(w.cos[id].st, St::Done)) {
                leak = true;
            }
        }
    } else {
        leak = true;
    }
    ACTIVE.with(|a| a.set(false));
    GENS.with(|gs| {
        for (i, g) in gs.borrow_mut().drain(..).enumerate() {
            if let Some(g) = g {
                let done = with(|w| matches!(w.cos[i].st, St::Done));
                if done {
                    POOL.with(|p| p.0.borrow_mut().push(g));
                } else {
                    std::mem::forget(g);
                }
            }
        }
    });
    JOBS.with(|j| {
        let v = std::mem::take(&mut *j.borrow_mut());
        if leak {
            std::mem::forget(v)
        }
    });
    let w = W.with(|w| w.borrow_mut().take()).unwrap();
    let panics = PANICS.with(|p| p.borrow()[before.min(p.borrow().len())..].to_vec());
    let end = End {
        stuck: w.stuck.clone(),
        livelock: w.livelock,
        panics,
        steps: w.steps,
        now: w.now,
    };
    if leak {
        std::mem::forget(w);
    }
    end
}

fn run_loop(until_main: bool) {
    loop {
        let next = with(|w| w.next.take());
        let id = match next {
            Some(i) => i,
            None => return,
        };
        with(|w| w.current = id);
        let mut g = GENS.with(|gs| gs.borrow_mut()[id].take()).expect("gen");
        let job = JOBS.with(|j| j.borrow_mut()[id].take());
        if job.is_some() {
            JOB.with(|j| *j.borrow_mut() = job);
        }
        IN_CO.with(|c| c.set(true));
        g.resume();
        IN_CO.with(|c| c.set(false));
        GENS.with(|gs| gs.borrow_mut()[id] = Some(g));
        if until_main && with(|w| matches!(w.cos[0].st, St::Done)) {
            with(|w| w.next = None);
            return;
        }
    }
}

impl World {
    fn enabled(&self, i: usize) -> bool {
        match &self.cos[i].st {
            St::Ready => true,
            St::Wait(c, _) => c(),
            St::Futex(a, v) => crate::futex::load(*a) != *v,
            St::Settle | St::Done => false,
        }
    }

    fn earliest(&self) -> Option<usize> {
        (0..self.timeline.len()).min_by_key(|&i| (self.timeline[i].at, self.timeline[i].seq))
    }

    fn describe(&self) -> String {
        let mut s = String::new();
        for (i, c) in self.cos.iter().enumerate() {
            let st = match &c.st {
                St::Ready => "ready",
                St::Wait(..) => "waiting",
                St::Futex(..) => "blocked on a lock",
                St::Settle => "settling",
                St::Done => continue,
            };
            s.push_str(&format!("#{} {} {} ({}); ", i, c.name, st, c.at));
        }
        s
    }
}

enum Pick {
    Co(usize),
    Spurious(usize),
    Deferred,
    Time,
    None,
}

fn fire_time() {
    let ev = with(|w| {
        let i = w.earliest().unwrap();
        let t = w.timeline.remove(i);
        if t.at > w.now {
            w.now = t.at;
        }
        t.ev
    });
    match ev {
        Ev::Delay(d) => {
            log_line(|| format!("time {:?}: timer fires", now()));
            d.fired.store(true, SeqCst);
            let wk = d.waker.lock().unwrap().take();
            if let Some(wk) = wk {
                wk.wake()
            }
        }
        Ev::Act(mut f) => {
            log_line(|| format!("time {:?}: environment acts", now()));
            atomically(f.take().unwrap())
        }
    }
}

fn fire_deferred() {
    let v = with(|w| std::mem::take(&mut w.deferred));
    log_line(|| "transport becomes ready".to_string());
    for w in v {
        w.wake()
    }
}

/// Decide what runs next.  Sets `next`; environment actions are performed here.
fn decide() {
    if with(|w| w.cancel) {
        with(|w| w.next = None);
        return;
    }
    let mut spins = 0;
    loop {
        step();
        let over = with(|w| {
            w.steps += 1;
            w.steps > w.cfg.max_steps
        });
        if over {
            with(|w| {
                w.livelock = true;
                w.stuck = Some(format!("no end after {} steps: {}", w.cfg.max_steps, w.describe()));
                w.next = None;
            });
            return;
        }
        let mut picks: Vec<Pick> = Vec::with_capacity(8);
        let (cur_enabled, costed) = with(|w| {
            let cur = w.current;
            let cur_enabled = w.enabled(cur);
            if cur_enabled {
                picks.push(Pick::Co(cur));
                if !w.cfg.preempt {
                    return (true, true);
                }
            }
            // The rest in rotation order after the current one.
            let n = w.cos.len();
            for k in 1..=n {
                let i = (cur + k) % n;
                if i != cur && w.enabled(i) {
                    picks.push(Pick::Co(i));
                }
            }
            let any = !picks.is_empty();
            if !any && spins < 20 && w.cos.iter().any(|c| matches!(c.st, St::Futex(..))) {
                return (false, true);
            }
            if !w.deferred.is_empty() {
                picks.push(Pick::Deferred);
            }
            let settle = w.cos.iter().position(|c| matches!(c.st, St::Settle));
            if picks.is_empty() {
                if let Some(s) = settle {
                    picks.push(Pick::Co(s));
                    return (false, true);
                }
            }
            if !w.timeline.is_empty() && (picks.is_empty() || w.cfg.early_timers) {
                picks.push(Pick::Time);
            }
            if w.cfg.spurious && any {
                for i in 0..n {
                    if i != cur && w.cos[i].spurious && matches!(w.cos[i].st, St::Wait(_, true)) && !w.enabled(i) {
                        picks.push(Pick::Spurious(i));
                    }
                }
            }
            (cur_enabled, w.cfg.switch_cost)
        });
        let k = if cur_enabled || costed {
            choose_cost(picks.len())
        } else {
            // Forced switch: choosing among enabled coroutines is free, other alternatives are rarer
            // and still free here, which keeps the enumeration complete.
            choose(picks.len())
        };
        let pick = if picks.is_empty() { Pick::None } else { picks.swap_remove(k) };
        match pick {
            Pick::Co(i) => {
                let old = with(|w| {
                    w.next = Some(i);
                    std::mem::replace(&mut w.cos[i].st, St::Ready)
                });
                drop(old);
                return;
            }
            Pick::Spurious(i) => {
                log_line(|| format!("spurious poll of #{}", i));
                let old = with(|w| {
                    w.next = Some(i);
                    std::mem::replace(&mut w.cos[i].st, St::Ready)
                });
                drop(old);
                return;
            }
            Pick::Deferred => fire_deferred(),
            Pick::Time => fire_time(),
            Pick::None => {
                let futex = with(|w| w.cos.iter().any(|c| matches!(c.st, St::Futex(..))));
                if futex && spins < 20 {
                    // Possibly a process-wide lock held by another worker for a moment.
                    spins += 1;
                    std::thread::sleep(Duration::from_millis(if spins < 5 { 1 } else { 10 }));
                    continue;
                }
                with(|w| {
                    let all_done = w.cos.iter().all(|c| matches!(c.st, St::Done));
                    if !all_done {
                        w.stuck = Some(w.describe());
                    }
                    w.next = None;
                });
                return;
            }
        }
    }
}

fn switch(me: usize) {
    decide();
    let next = with(|w| w.next);
    if next == Some(me) {
        with(|w| {
            w.next = None;
            w.current = me;
        });
        return;
    }
    generator::yield_with(());
    if with(|w| w.cancel) && !std::thread::panicking() {
        std::panic::resume_unwind(Box::new(Cancelled));
    }
}

/// A scheduling point before an operation on shared state.
pub fn point(tag: &'static str) {
    if !in_coroutine() || std::thread::panicking() {
        return;
    }
    let me = match with(|w| {
        if w.cancel || w.nopoint > 0 {
            None
        } else {
            let me = w.current;
            w.cos[me].at = tag;
            Some(me)
        }
    }) {
        Some(m) => m,
        None => return,
    };
    log_line(|| format!("#{} at {}", me, tag));
    switch(me);
}

/// A scheduling point after an operation; only present when the repository's own hook is absent.
pub fn point_after(tag: &'static str) {
    if AFTER.load(SeqCst) {
        point(tag)
    }
}
pub static AFTER: AtomicBool = AtomicBool::new(false);

/// Run `f` without scheduling points.
pub fn atomically<T>(f: impl FnOnce() -> T) -> T {
    if !in_coroutine() {
        return f();
    }
    with(|w| w.nopoint += 1);
    let r = f();
    with(|w| w.nopoint -= 1);
    r
}

/// What to do in a loop that waits for another thread to finish what it has begun.
pub enum Spin {
    /// Not in an execution: spin
    Spin,
    /// Try again, something has happened
    Again,
    /// It may never happen: the execution is being torn down
    GiveUp,
}

thread_local! {
    static PROGRESS: std::cell::Cell<u64> = const { std::cell::Cell::new(0) };
}

/// What loops that spin wait for has happened.
pub fn progress() {
    PROGRESS.with(|p| p.set(p.get().wrapping_add(1)));
}

/// Wait for progress.
pub fn spin(tag: &'static str) -> Spin {
    if !in_coroutine() {
        return Spin::Spin;
    }
    if std::thread::panicking() || with(|w| w.cancel || w.nopoint > 0) {
        return Spin::GiveUp;
    }
    let seen = PROGRESS.with(|p| p.get());
    block_until(tag, move || PROGRESS.with(|p| p.get()) != seen);
    Spin::Again
}

pub fn block_until(tag: &'static str, cond: impl Fn() -> bool + 'static) {
    block(tag, false, cond)
}

fn block(tag: &'static str, spurious: bool, cond: impl Fn() -> bool + 'static) {
    assert!(in_coroutine(), "block_until outside a coroutine");
    let me = with(|w| {
        let me = w.current;
        w.cos[me].at = tag;
        w.cos[me].st = St::Wait(Box::new(cond), spurious);
        me
    });
    if with(|w| w.cancel) {
        std::panic::resume_unwind(Box::new(Cancelled));
    }
    switch(me);
}

pub(crate) fn block_futex(addr: usize, val: u32) {
    // Locks are also contended for a moment by other workers of this process.
    for _ in 0..50 {
        if crate::futex::load(addr) != val {
            return;
        }
        std::thread::yield_now();
    }
    let me = with(|w| {
        let me = w.current;
        w.cos[me].at = "lock";
        w.cos[me].st = St::Futex(addr, val);
        me
    });
    if !with(|w| w.cancel) {
        log_line(|| format!("#{} waits for a lock", me));
        decide();
        let next = with(|w| w.next);
        if next == Some(me) {
            with(|w| {
                w.next = None;
                w.current = me;
            });
            return;
        }
        generator::yield_with(());
    }
    // No unwinding from here: the frames of a lock operation do not expect it.
    while with(|w| w.cancel) && crate::futex::load(addr) == val {
        generator::yield_with(());
    }
}

/// Block until every other coroutine is blocked and the transport has no deferred readiness.
/// Time does not advance.
pub fn settle() {
    settle_once();
    if let Some(d) = IDLE.with(|i| i.get()) {
        pass(d);
        settle_once();
    }
}

fn settle_once() {
    let me = with(|w| {
        let me = w.current;
        w.cos[me].at = "settle";
        w.cos[me].st = St::Settle;
        me
    });
    switch(me);
}

thread_local! {
    static IDLE: std::cell::Cell<Option<Duration>> = const { std::cell::Cell::new(None) };
}

/// Whenever everything has settled during `f`, this much time passes.
pub fn idling<R>(d: Duration, f: impl FnOnce() -> R) -> R {
    let before = IDLE.with(|i| i.replace(Some(d)));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    IDLE.with(|i| i.set(before));
    r.unwrap_or_else(|e| std::panic::resume_unwind(e))
}

struct Flag(AtomicBool);
impl Wake for Flag {
    fn wake(self: Arc<Self>) {
        self.0.store(true, SeqCst)
    }
}

/// Poll a future to completion from the current coroutine.
pub fn block_on<F: Future>(tag: &'static str, fut: F) -> F::Output {
    run_future(tag, false, Box::pin(fut))
}

fn run_future<T>(tag: &'static str, spurious: bool, mut fut: Pin<Box<dyn Future<Output = T> + '_>>) -> T {
    loop {
        // Only the waker of the latest poll counts.
        let flag = Arc::new(Flag(AtomicBool::new(false)));
        let waker = Waker::from(flag.clone());
        let mut cx = Context::from_waker(&waker);
        match fut.as_mut().poll(&mut cx) {
            Poll::Ready(v) => return v,
            Poll::Pending => {
                block(tag, spurious, move || flag.0.load(SeqCst));
            }
        }
    }
}

/// Start a coroutine that drives a future, as an executor would.
pub fn spawn_task(name: impl Into<String>, fut: Pin<Box<dyn Future<Output = ()>>>) -> usize {
    spawn(name, true, move || run_future("poll", true, fut))
}

pub fn is_done(id: usize) -> bool {
    with(|w| matches!(w.cos[id].st, St::Done))
}

pub fn current() -> usize {
    with(|w| w.current)
}

/// Wake `waker` when the environment next gets a turn.
pub fn defer(waker: Waker) {
    with(|w| w.deferred.push(waker));
}

pub fn now() -> Duration {
    with(|w| w.now)
}

/// Let the environment do something at a virtual time.
pub fn at(t: Duration, f: impl FnOnce() + 'static) {
    with(|w| {
        w.seq += 1;
        let seq = w.seq;
        w.timeline.push(Timed {
            at: t,
            seq,
            ev: Ev::Act(Some(Box::new(f))),
        })
    });
}

/// Let virtual time pass: everything due in the meantime happens first.
pub fn pass(d: Duration) {
    let over = Arc::new(AtomicBool::new(false));
    let o = over.clone();
    at(now() + d, move || o.store(true, SeqCst));
    block("waiting", false, move || over.load(SeqCst));
}

pub fn pending_timers() -> usize {
    with(|w| w.timeline.iter().filter(|t| matches!(t.ev, Ev::Delay(_))).count())
}

pub struct DelayState {
    pub fired: AtomicBool,
    pub waker: Mutex<Option<Waker>>,
    pub id: AtomicU64,
}

pub fn new_delay(d: Duration) -> Arc<DelayState> {
    let s = Arc::new(DelayState {
        fired: AtomicBool::new(false),
        waker: Mutex::new(None),
        id: AtomicU64::new(0),
    });
    arm_delay(&s, d);
    s
}

pub fn arm_delay(s: &Arc<DelayState>, d: Duration) {
    if !in_world() {
        return;
    }
    cancel_delay(s);
    s.fired.store(false, SeqCst);
    with(|w| {
        w.seq += 1;
        let seq = w.seq;
        let at = w.now + d;
        w.timeline.push(Timed {
            at,
            seq,
            ev: Ev::Delay(s.clone()),
        })
    });
}

pub fn cancel_delay(s: &Arc<DelayState>) {
    if !in_world() {
        return;
    }
    with(|w| {
        w.timeline.retain(|t| match &t.ev {
            Ev::Delay(d) => !Arc::ptr_eq(d, s),
            _ => true,
        })
    });
}
