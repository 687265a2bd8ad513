//! Command line, exploration of a property's scenarios, evidence, replay, crash and hang handling.
use std::collections::BTreeMap;
use std::io::Write;
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering::SeqCst};
use std::sync::Mutex;
use std::time::{Duration, Instant};

use mcrt::explore::{explore, run_one, Beacon, Cfg, Found, Scenario, Stats, Viol};
use serde_json::{json, Value};

pub struct Check {
    pub id: &'static str,
    /// How cases are made and what they are compared with (for the evidence file).
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub scenarios: fn(Tier) -> Vec<Scenario>,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

impl Tier {
    pub fn pick<T>(self, q: T, t: T) -> T {
        match self {
            Tier::Quick => q,
            Tier::Thorough => t,
        }
    }
}

pub fn scenario(
    name: impl Into<String>,
    bound: u32,
    run: impl Fn() -> Result<u64, Viol> + Send + Sync + 'static,
) -> Scenario {
    Scenario {
        name: name.into(),
        bound,
        run: Box::new(run),
    }
}

/// The scenario with an hour passing whenever nothing is left to be done.
pub fn idling(s: Scenario) -> Scenario {
    let Scenario { name, bound, run } = s;
    Scenario {
        name: format!("{}, idling", name),
        bound,
        run: Box::new(move || mcrt::sched::idling(std::time::Duration::from_secs(3_600), &run)),
    }
}

/// The scenario with transports that pass on only what has been flushed.
pub fn buffering(s: Scenario) -> Scenario {
    let Scenario { name, bound, run } = s;
    Scenario {
        name: format!("{}, buffering transport", name),
        bound,
        run: Box::new(move || crate::world::buffering(&run)),
    }
}

pub fn viol(key: impl Into<String>, msg: impl Into<String>) -> Viol {
    Viol {
        key: key.into(),
        msg: msg.into(),
    }
}

const SLOT: usize = 1 << 16;
const SLOTS: usize = 64;

struct MapBeacon {
    mem: *mut u8,
    scenario: AtomicUsize,
    started: Vec<AtomicU64>,
    epoch: Instant,
}
unsafe impl Sync for MapBeacon {}
unsafe impl Send for MapBeacon {}

impl MapBeacon {
    fn new(path: &Path) -> MapBeacon {
        let f = std::fs::OpenOptions::new()
            .read(true)
            .write(true)
            .create(true)
            .truncate(true)
            .open(path)
            .unwrap();
        f.set_len((SLOT * SLOTS) as u64).unwrap();
        use std::os::fd::AsRawFd;
        let mem = unsafe {
            libc::mmap(
                std::ptr::null_mut(),
                SLOT * SLOTS,
                libc::PROT_READ | libc::PROT_WRITE,
                libc::MAP_SHARED,
                f.as_raw_fd(),
                0,
            )
        };
        assert!(mem != libc::MAP_FAILED);
        MapBeacon {
            mem: mem as *mut u8,
            scenario: AtomicUsize::new(0),
            started: (0..SLOTS).map(|_| AtomicU64::new(0)).collect(),
            epoch: Instant::now(),
        }
    }
    fn ms(&self) -> u64 {
        self.epoch.elapsed().as_millis() as u64 + 1
    }
    fn slot(&self, w: usize) -> *mut u32 {
        unsafe { self.mem.add((w % SLOTS) * SLOT) as *mut u32 }
    }
    fn read(&self, w: usize) -> (u32, Vec<(u16, u16)>) {
        read_slot(unsafe { std::slice::from_raw_parts(self.slot(w), SLOT / 4) })
    }
}

fn read_slot(s: &[u32]) -> (u32, Vec<(u16, u16)>) {
    let n = (s[1] as usize).min(SLOT / 4 - 2);
    (
        s[0],
        s[2..2 + n].iter().map(|x| ((x >> 16) as u16, *x as u16)).collect(),
    )
}

impl Beacon for MapBeacon {
    fn note(&self, w: usize, prefix: &[(u16, u16)]) {
        unsafe {
            let s = self.slot(w);
            *s = self.scenario.load(SeqCst) as u32 + 1;
            let n = prefix.len().min(SLOT / 4 - 2);
            *s.add(1) = n as u32;
            for (i, (a, b)) in prefix[..n].iter().enumerate() {
                *s.add(2 + i) = ((*a as u32) << 16) | *b as u32;
            }
        }
        self.started[w % SLOTS].store(self.ms(), SeqCst);
    }
    fn idle(&self, w: usize) {
        self.started[w % SLOTS].store(0, SeqCst);
        unsafe {
            *self.slot(w) = 0;
        }
    }
}

fn verif() -> PathBuf {
    std::env::var_os("VERIF_DIR").map(PathBuf::from).unwrap_or_else(|| "/verif".into())
}

fn known_keys(id: &str) -> BTreeMap<String, String> {
    let mut m = BTreeMap::new();
    if let Ok(s) = std::fs::read_to_string(verif().join("known-findings.txt")) {
        for l in s.lines() {
            if let Some(r) = l.strip_prefix("known: ") {
                let mut prop = None;
                let mut key = None;
                for w in r.split_whitespace() {
                    if let Some(p) = w.strip_prefix("property=") {
                        prop = Some(p.to_string());
                    }
                    if let Some(k) = w.strip_prefix("key=") {
                        key = Some(k.to_string());
                    }
                }
                if prop.as_deref() == Some(id) {
                    if let Some(k) = key {
                        m.insert(k, r.to_string());
                    }
                }
            }
        }
    }
    m
}

fn replay_path(id: &str, n: usize) -> PathBuf {
    let d = verif().join("build").join("replays");
    let _ = std::fs::create_dir_all(&d);
    d.join(format!("{}-{}.json", id, n))
}

fn write_replay(id: &str, tier: Tier, sc: &str, choices: &[(u16, u16)], v: &Viol, log: &[String], n: usize) -> PathBuf {
    let p = replay_path(id, n);
    let j = json!({
        "property": id,
        "tier": format!("{:?}", tier),
        "scenario": sc,
        "key": v.key,
        "message": v.msg,
        "choices": choices.iter().map(|(a, b)| vec![*a, *b]).collect::<Vec<_>>(),
        "log": log,
    });
    let _ = std::fs::write(&p, serde_json::to_string_pretty(&j).unwrap());
    p
}

fn report(id: &str, path: &Path, v: &Viol, sc: &str) {
    println!("  scenario: {}", sc);
    println!("  what: {}", v.msg);
    println!("  key: {}", v.key);
    println!("VIOLATION property={} replay={}", id, path.display());
    let _ = std::io::stdout().flush();
}

pub fn main(checks: &[Check]) -> ! {
    let args: Vec<String> = std::env::args().collect();
    let usage = || -> ! {
        eprintln!("usage: {} check <ID> <quick|thorough> | replay <file> | list", args[0]);
        std::process::exit(2)
    };
    match args.get(1).map(|s| s.as_str()) {
        Some("list") => {
            for c in checks {
                println!("{}", c.id);
            }
            std::process::exit(0)
        }
        Some("check") if args.len() >= 4 => {
            let tier = if args[3] == "thorough" { Tier::Thorough } else { Tier::Quick };
            let c = match checks.iter().find(|c| c.id == args[2]) {
                Some(c) => c,
                None => usage(),
            };
            if std::env::var_os("MC_CHILD").is_some() {
                child(c, tier)
            } else {
                supervise(c, tier)
            }
        }
        Some("one") if args.len() >= 6 => {
            // one <ID> <tier> <scenario index> <choices json>: crash confirmation
            mcrt::futex::init();
            mcrt::sched::install_panic_hook();
            let tier = if args[3] == "Thorough" { Tier::Thorough } else { Tier::Quick };
            let c = checks.iter().find(|c| c.id == args[2]).unwrap();
            let scs = (c.scenarios)(tier);
            let ch: Vec<(u16, u16)> = serde_json::from_str(&args[5]).unwrap();
            let sc = scs.into_iter().nth(args[4].parse().unwrap()).unwrap();
            let h = std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn(move || {
                    let _ = run_one(&sc, ch, false);
                })
                .unwrap();
            let _ = h.join();
            std::process::exit(0)
        }
        Some("replay") if args.len() >= 3 => {
            mcrt::futex::init();
            mcrt::sched::install_panic_hook();
            let v: Value = serde_json::from_str(&std::fs::read_to_string(&args[2]).unwrap()).unwrap();
            let c = checks.iter().find(|c| c.id == v["property"]).unwrap();
            let tier = if v["tier"] == "Thorough" { Tier::Thorough } else { Tier::Quick };
            let ch: Vec<(u16, u16)> = serde_json::from_value(v["choices"].clone()).unwrap();
            let scs = (c.scenarios)(tier);
            let sc = scs.into_iter().find(|s| v["scenario"] == s.name).expect("scenario");
            let h = std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn(move || {
                    let o = run_one(&sc, ch, true);
                    for l in &o.log {
                        println!("{}", l);
                    }
                    if o.diverged {
                        println!("(the recorded choices do not fit this tree's executions)");
                    }
                    match o.verdict {
                        Ok(_) => {
                            println!("property holds on this execution");
                            0
                        }
                        Err(v) => {
                            println!("VIOLATED: {}", v.msg);
                            1
                        }
                    }
                })
                .unwrap();
            std::process::exit(h.join().unwrap())
        }
        _ => usage(),
    }
}

fn beacon_path(pid: u32) -> PathBuf {
    let d = verif().join("build");
    let _ = std::fs::create_dir_all(&d);
    d.join(format!("beacon-{}", pid))
}

fn supervise(c: &Check, tier: Tier) -> ! {
    let exe = std::env::current_exe().unwrap();
    let t = if tier == Tier::Quick { "quick" } else { "thorough" };
    let start = Instant::now();
    let mut child = std::process::Command::new(&exe)
        .args(["check", c.id, t])
        .env("MC_CHILD", "1")
        .spawn()
        .expect("start child");
    let pid = child.id();
    let st = child.wait().unwrap();
    let bp = beacon_path(pid);
    if let Some(code) = st.code() {
        let _ = std::fs::remove_file(&bp);
        std::process::exit(code)
    }
    // The code under test killed the process.  Find the execution that does it.
    use std::os::unix::process::ExitStatusExt;
    let sig = st.signal().unwrap_or(0);
    eprintln!("checker died with signal {}; looking for the execution responsible", sig);
    let mut cands = Vec::new();
    if let Ok(b) = std::fs::read(&bp) {
        let w: Vec<u32> = b.chunks_exact(4).map(|c| u32::from_le_bytes([c[0], c[1], c[2], c[3]])).collect();
        for s in w.chunks(SLOT / 4) {
            let (sc, ch) = read_slot(s);
            if sc > 0 {
                cands.push((sc as usize - 1, ch));
            }
        }
    }
    let _ = std::fs::remove_file(&bp);
    let names: Vec<String> = (c.scenarios)(tier).into_iter().map(|s| s.name).collect();
    for (sc, ch) in cands {
        let st = std::process::Command::new(&exe)
            .args([
                "one",
                c.id,
                &format!("{:?}", tier),
                &sc.to_string(),
                &serde_json::to_string(&ch).unwrap(),
            ])
            .status()
            .unwrap();
        if st.code().is_none() {
            let v = viol(
                "crash",
                format!("the process is killed by signal {} in this execution", st.signal().unwrap_or(0)),
            );
            let p = write_replay(c.id, tier, &names[sc], &ch, &v, &[], 0);
            evidence(c, tier, &[], &[], 1, start.elapsed().as_secs_f64());
            report(c.id, &p, &v, &names[sc]);
            std::process::exit(1)
        }
    }
    eprintln!("no single execution reproduces the crash");
    std::process::exit(2)
}

struct Row {
    name: String,
    bound: u32,
    stats: Stats,
}

fn child(c: &Check, tier: Tier) -> ! {
    mcrt::futex::init();
    mcrt::sched::install_panic_hook();
    let id = c.id;
    let start = Instant::now();
    let cap = std::env::var("MC_CAP_S")
        .ok()
        .and_then(|s| s.parse::<u64>().ok())
        .unwrap_or(tier.pick(300, 780));
    let deadline = start + Duration::from_secs(cap);
    let beacon: &'static MapBeacon = Box::leak(Box::new(MapBeacon::new(&beacon_path(std::process::id()))));
    let workers = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(8).min(16);
    let scs: &'static Vec<Scenario> = Box::leak(Box::new((c.scenarios)(tier)));
    let only = std::env::var("MC_ONLY").ok();
    // Hang watchdog.
    let hang = Duration::from_secs(90).as_millis() as u64;
    std::thread::spawn(move || loop {
        std::thread::sleep(Duration::from_millis(500));
        let now = beacon.ms();
        for w in 0..SLOTS {
            let s = beacon.started[w].load(SeqCst);
            if s != 0 && now.saturating_sub(s) > hang {
                let (sc, ch) = beacon.read(w);
                if sc == 0 {
                    continue;
                }
                let name = &scs[sc as usize - 1].name;
                let v = viol("hang", "one execution does not end (no scheduling point reached for 90 s)");
                let p = write_replay(id, tier, name, &ch, &v, &[], 0);
                let _ = std::fs::remove_file(beacon_path(std::process::id()));
                report(id, &p, &v, name);
                std::process::exit(1);
            }
        }
    });
    let known = known_keys(id);
    let is_known = |v: &Viol| known.contains_key(&v.key);
    let mut rows: Vec<Row> = Vec::new();
    let mut found: Vec<(String, Found)> = Vec::new();
    let mut known_seen: Vec<Viol> = Vec::new();
    let n = scs.len();
    // Scenarios share the time; each may use what is left over from the earlier ones.
    for (i, sc) in scs.iter().enumerate() {
        if let Some(o) = &only {
            if !sc.name.contains(o.as_str()) {
                continue;
            }
        }
        beacon.scenario.store(i, SeqCst);
        let left = deadline.saturating_duration_since(Instant::now());
        let share = left / ((n - i) as u32).max(1) * 3;
        let cfg = Cfg {
            workers,
            deadline: Instant::now() + share.min(left),
            max_found: 1,
            is_known: &is_known,
            beacon,
        };
        let (stats, f, k) = explore(sc, &cfg);
        if std::env::var_os("MC_VERBOSE").is_some() {
            eprintln!(
                "{:40} execs {:>9} states {:>10} steps {:>11} distinct {:>8} depth {:>4} dev {:?} {} {:.2}s{}",
                sc.name,
                stats.executions,
                stats.states,
                stats.transitions,
                stats.distinct,
                stats.max_depth,
                stats.by_deviation,
                if stats.complete { "complete" } else { "CUT" },
                stats.wall,
                if stats.diverged > 0 { format!(" DIVERGED {}", stats.diverged) } else { String::new() },
            );
        }
        rows.push(Row {
            name: sc.name.clone(),
            bound: sc.bound,
            stats,
        });
        for x in f {
            found.push((sc.name.clone(), x));
        }
        for v in k {
            if !known_seen.iter().any(|o| o.key == v.key) {
                known_seen.push(v);
            }
        }
        if found.len() >= 3 {
            break;
        }
    }
    // Samples: a few executions again, with their logs.
    let mut samples = Vec::new();
    if found.is_empty() {
        let step = (rows.len() / 4).max(1);
        for r in rows.iter().step_by(step).take(5) {
            let sc = scs.iter().find(|s| s.name == r.name).unwrap();
            let first = run_one(sc, Vec::new(), false);
            // one variation: flip the last choice that has alternatives
            let mut pre: Vec<(u16, u16)> = first.trace.iter().map(|t| (t.n, t.c)).collect();
            if let Some(p) = pre.len().checked_sub(1) {
                let p = p - (p / 3);
                pre.truncate(p + 1);
                pre[p].1 = pre[p].0 - 1;
            }
            let mut o = run_one(sc, pre, true);
            o.log.truncate(40);
            let log: Vec<String> = o
                .log
                .into_iter()
                .map(|mut l| {
                    if l.len() > 300 {
                        let mut k = 300;
                        while !l.is_char_boundary(k) {
                            k -= 1;
                        }
                        l.truncate(k);
                    }
                    l
                })
                .collect();
            samples.push(json!({
                "scenario": sc.name,
                "choices": o.trace.iter().take(200).map(|t| t.c.to_string()).collect::<Vec<_>>().join(" "),
                "choice_points": o.trace.len(),
                "log": log,
            }));
        }
    }
    for v in &known_seen {
        println!("KNOWN-FINDING: property={} key={} {}", id, v.key, v.msg.replace('\n', " "));
    }
    evidence(c, tier, &rows, &samples, found.len(), start.elapsed().as_secs_f64());
    let mut code = 0;
    for (i, (name, f)) in found.iter().enumerate() {
        let sc = scs.iter().find(|s| &s.name == name).unwrap();
        let one = run_one(sc, f.choices.clone(), true);
        let (v, log) = match one.verdict {
            Err(v) => (v, one.log),
            Ok(_) => (f.viol.clone(), one.log),
        };
        let p = write_replay(id, tier, name, &f.choices, &v, &log, i);
        report(id, &p, &v, name);
        code = 1;
    }
    let _ = std::fs::remove_file(beacon_path(std::process::id()));
    let div: u64 = rows.iter().map(|r| r.stats.diverged).sum();
    if div > 0 {
        eprintln!("warning: {} executions did not replay identically", div);
    }
    if code == 0 {
        println!(
            "property={} held: {} executions, {} states, {} transitions, {:.1}s",
            id,
            rows.iter().map(|r| r.stats.executions).sum::<u64>(),
            rows.iter().map(|r| r.stats.states).sum::<u64>(),
            rows.iter().map(|r| r.stats.transitions).sum::<u64>(),
            start.elapsed().as_secs_f64()
        );
    }
    let _ = std::io::stdout().flush();
    // Skip destructors of leaked coroutines.
    unsafe { libc::_exit(code) }
}

fn evidence(c: &Check, tier: Tier, rows: &[Row], samples: &[Value], violations: usize, wall: f64) {
    let d = verif().join("evidence");
    let _ = std::fs::create_dir_all(&d);
    let seed: i64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let sum = |f: fn(&Stats) -> u64| rows.iter().map(|r| f(&r.stats)).sum::<u64>();
    let mut cov = json!({
        "states": sum(|s| s.states),
        "transitions": sum(|s| s.transitions),
        "traces_validated_against_impl": sum(|s| s.executions),
        "distinct_outcomes": sum(|s| s.distinct),
        "samples": samples,
        "rule": c.rule,
        "exhaustive": rows.iter().all(|r| r.stats.complete),
        "replay_divergences": sum(|s| s.diverged),
        "scenarios": rows.iter().map(|r| json!({
            "name": r.name,
            "deviation_bound": r.bound,
            "completed_bound": r.stats.completed_bound,
            "complete": r.stats.complete,
            "executions": r.stats.executions,
            "executions_by_deviations": r.stats.by_deviation,
            "choice_points_max": r.stats.max_depth,
            "distinct_outcomes": r.stats.distinct,
        })).collect::<Vec<_>>(),
    });
    cov["note"] = json!("states: nodes of the choice tree; transitions: scheduler decisions and operations performed on the real code; every execution runs the implementation and is compared with the reference model");
    let j = json!({
        "property": c.id,
        "tier": if tier == Tier::Quick { "quick" } else { "thorough" },
        "seed": seed,
        "level": "model_checking",
        "coverage": cov,
        "assumptions": c.assumptions,
        "wall_s": wall,
        "violations": violations,
    });
    let _ = std::fs::write(d.join(format!("{}.json", c.id)), serde_json::to_string_pretty(&j).unwrap());
}

/// A global that samples may fill in.
pub static NOTES: Mutex<Vec<String>> = Mutex::new(Vec::new());
