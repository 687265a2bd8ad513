//! Handlers that use the client, concurrent handler changes, drop, fast answers: C18, C19, C21, C22.
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::SeqCst};
use std::sync::{Arc, Mutex};

use mcrt::explore::{choose, log_line, step, Scenario, Viol};
use mcrt::sched::{self, WorldCfg};
use socket_io_client::protocol::Args;
use socket_io_client::{AckBuilder, AckCallback, Client, EventCallback};

use crate::client_a::{calm, event_text, ns_prefix, packet_show, parse_sent};
use crate::driver::{idling, scenario, viol, Tier};
use crate::model::{Fr, Out, Reg, Session};
use crate::reference::{parse_packet, Kind, Parsed};
use crate::world::*;

type Shared = Arc<Mutex<Option<Client>>>;

/// What happened inside handlers, in order.
#[derive(Clone, Debug)]
enum Rec {
    Called(String, String),
    Set(String, String, String),
    Clear(String, String),
    Fb(String, String),
    ClearFb(String),
    /// An acknowledgement callback was handed over for the packet sent next in this namespace.
    Await(String, String),
    /// What must have been sent.
    Sent(String),
    Returned(String),
}

#[derive(Clone)]
struct Scene {
    client: Shared,
    log: Arc<Mutex<Vec<Rec>>>,
    /// Operations handlers may still perform.
    budget: Arc<AtomicUsize>,
    names: Arc<AtomicUsize>,
}

const OPS: usize = 13;

impl Scene {
    fn new(budget: usize) -> Scene {
        Scene {
            client: Arc::default(),
            log: Arc::default(),
            budget: Arc::new(AtomicUsize::new(budget)),
            names: Arc::default(),
        }
    }
    fn rec(&self, r: Rec) {
        log_line(|| format!("{:?}", r));
        self.log.lock().unwrap().push(r)
    }
    fn fresh(&self, p: &str) -> String {
        format!("{}{}", p, self.names.fetch_add(1, SeqCst))
    }
    /// An event handler that performs operations of the explorer's choice.
    fn event(&self, name: &str) -> EventCallback {
        let (s, name) = (self.clone(), name.to_string());
        EventCallback::from(move |args: &Args, mut ack: Option<AckBuilder>| {
            s.rec(Rec::Called(name.clone(), show_args(args)));
            s.act(&mut ack);
            s.rec(Rec::Returned(name.clone()));
        })
    }
    fn ack(&self, name: &str) -> AckCallback {
        let (s, name) = (self.clone(), name.to_string());
        AckCallback::from(move |args: &Args| {
            s.rec(Rec::Called(name.clone(), show_args(args)));
            s.act(&mut None);
            s.rec(Rec::Returned(name.clone()));
        })
    }
    fn act(&self, ack: &mut Option<AckBuilder>) {
        while self.budget.load(SeqCst) > 0 {
            let k = choose(OPS);
            if k == 0 {
                return;
            }
            self.budget.fetch_sub(1, SeqCst);
            step();
            self.op(k, ack);
        }
    }
    fn op(&self, k: usize, ack: &mut Option<AckBuilder>) {
        if k == 12 {
            match ack.take() {
                Some(a) => {
                    a.args().arg("reply").unwrap().send();
                    self.rec(Rec::Sent("ack".into()));
                }
                None => return,
            }
            return;
        }
        let mut g = self.client.lock().unwrap();
        let c = match g.as_mut() {
            Some(c) => c,
            None => return,
        };
        match k {
            1 | 2 | 3 => {
                let (ns, ev) = [("/", "x"), ("/", "y"), ("/a", "x")][k - 1];
                let n = self.fresh("h");
                c.set_namespace_event_callback(ns, ev, self.event(&n));
                self.rec(Rec::Set(ns.into(), ev.into(), n));
            }
            4 | 5 => {
                let (ns, ev) = [("/", "x"), ("/a", "x")][k - 4];
                c.clear_namespace_event_callback(ns, ev);
                self.rec(Rec::Clear(ns.into(), ev.into()));
            }
            6 => {
                let n = self.fresh("f");
                c.set_fallback_callback(self.event(&n));
                self.rec(Rec::Fb("/".into(), n));
            }
            7 => {
                c.clear_fallback_callback();
                self.rec(Rec::ClearFb("/".into()));
            }
            8 | 9 => {
                let ns = ["/", "/a"][k - 8];
                let n = self.fresh("cb");
                let cb = self.ack(&n);
                c.namespace_emit(ns, "e").callback(cb).args().arg("v").unwrap().send();
                self.rec(Rec::Await(ns.into(), n));
                self.rec(Rec::Sent(format!("event {} with id", ns)));
            }
            10 => {
                c.emit("e").args().send();
                self.rec(Rec::Sent("event / -".into()));
            }
            _ => {
                c.namespace_emit("/a", "e").binary(true).args().arg(&[1u8, 2][..]).unwrap().send();
                self.rec(Rec::Sent("event /a -".into()));
            }
        }
    }
}

/// Replay what the handlers did against the model: for every packet, in order of arrival, the right
/// handler ran (or none), given the changes made before it.
fn judge_scene(frames: &[Fr], log: &[Rec], sent: &[Msg], reg: Reg) -> Result<(), Viol> {
    let mut reg = reg;
    let mut ses = Session::default();
    let mut i = 0;
    // Ids as they appear on the wire, in the order of emission.
    let ids: Vec<(String, u64)> = parse_sent(sent)?
        .iter()
        .filter(|p| p.0.kind == Kind::Event)
        .filter_map(|p| p.0.id.map(|i| (p.0.ns.clone(), i)))
        .collect();
    let mut awaited = 0;
    let mut sends = Vec::new();
    for f in frames {
        let d = match ses.feed(f) {
            Out::Deliver(d) => d,
            _ => continue,
        };
        let h = match d.packet.kind {
            Kind::Event => d.event().and_then(|e| reg.lookup(&d.packet.ns, &e).cloned()),
            Kind::Ack => reg.acks.remove(&(d.packet.ns.clone(), d.packet.id.unwrap())),
            _ => None,
        };
        let want = match h {
            Some(h) => h,
            None => continue,
        };
        match log.get(i) {
            Some(Rec::Called(n, a)) if *n == want && *a == d.shown() => {}
            o => {
                return Err(viol(
                    "in-handler-change",
                    format!("{} must be delivered to {} next, but: {:?}; all: {:?}", f.show(), want, o, log),
                ))
            }
        }
        i += 1;
        loop {
            match log.get(i) {
                Some(Rec::Returned(n)) if *n == want => {
                    i += 1;
                    break;
                }
                Some(Rec::Set(ns, ev, n)) => {
                    reg.ev.insert((ns.clone(), ev.clone()), n.clone());
                }
                Some(Rec::Clear(ns, ev)) => {
                    reg.ev.remove(&(ns.clone(), ev.clone()));
                }
                Some(Rec::Fb(ns, n)) => {
                    reg.fb.insert(ns.clone(), n.clone());
                }
                Some(Rec::ClearFb(ns)) => {
                    reg.fb.remove(ns);
                }
                Some(Rec::Await(ns, n)) => match ids.get(awaited) {
                    Some((wns, id)) if wns == ns => {
                        reg.acks.insert((ns.clone(), *id), n.clone());
                        awaited += 1;
                    }
                    o => return Err(viol("emit", format!("emission in {} went out as {:?}", ns, o))),
                },
                Some(Rec::Sent(s)) => sends.push(s.clone()),
                o => return Err(viol("in-handler-change", format!("handler {} did not complete: {:?}", want, o))),
            }
            i += 1;
        }
    }
    if i != log.len() {
        return Err(viol("in-handler-change", format!("handlers ran without cause: {:?}", &log[i..])));
    }
    let got: Vec<String> = parse_sent(sent)?
        .iter()
        .map(|p| match (p.0.kind, p.0.id) {
            (Kind::Ack, _) => "ack".into(),
            (_, Some(_)) => format!("event {} with id", p.0.ns),
            (_, None) => format!("event {} -", p.0.ns),
        })
        .collect();
    eq_list("emit", "packets sent from handlers", &got, &sends)
}

/// A server that answers every emission with an id at once; returns everything the client was sent.
fn answering_server(ctx: &Ctx, pushed: &Arc<Mutex<Vec<Fr>>>) {
    let p = pushed.clone();
    ctx.net.with(|n| {
        n.on_msg = Some(Box::new(move |m| {
            if let Msg::Text(s) = m {
                if s.starts_with("42") || s.starts_with("45") {
                    if let Parsed::Ok(k) = parse_packet(&s[1..]) {
                        if let (Kind::Event, Some(id)) = (k.kind, k.id) {
                            let f = Fr::T(format!("43{}{}[{}]", ns_prefix(&k.ns), id, id));
                            let b = f.bytes();
                            p.lock().unwrap().push(f);
                            return b;
                        }
                    }
                }
            }
            Vec::new()
        }))
    });
}

fn push(ctx: &Ctx, pushed: &Arc<Mutex<Vec<Fr>>>, fs: &[Fr]) {
    pushed.lock().unwrap().extend_from_slice(fs);
    for f in fs {
        log_line(|| format!("server sends {}", f.show()));
        ctx.net.push(&f.bytes());
    }
}

fn probes() -> Vec<Fr> {
    ["/", "/a"]
        .iter()
        .flat_map(|ns| ["x", "y", "z"].iter().map(move |ev| Fr::T(event_text(ns, None, ev, ",\"probe\""))))
        .collect()
}

fn c18_scene(ctx: &Ctx, budget: usize) -> Result<(Scene, Reg), Viol> {
    let s = Scene::new(budget);
    let mut c = ctx.connect()?;
    let mut reg = Reg::default();
    for (ns, ev, n) in [("/", "x", "X"), ("/a", "x", "AX")] {
        c.set_namespace_event_callback(ns, ev, s.event(n));
        reg.ev.insert((ns.into(), ev.into()), n.into());
    }
    c.set_fallback_callback(s.event("F"));
    reg.fb.insert("/".into(), "F".into());
    *s.client.lock().unwrap() = Some(c);
    Ok((s, reg))
}

fn finish(ctx: &Ctx, s: &Scene) -> Result<(), Viol> {
    let mut c = s.client.lock().unwrap().take().unwrap();
    match ctx.close(&mut c) {
        Ok(()) => Ok(()),
        Err(e) => Err(viol("result", format!("close reports {}", e))),
    }
}

fn c18_history(budget: usize, packets: usize, burst: bool) -> Result<u64, Viol> {
    run(&calm(), move |ctx| {
        let (s, reg) = c18_scene(ctx, budget)?;
        let pushed: Arc<Mutex<Vec<Fr>>> = Arc::default();
        answering_server(ctx, &pushed);
        let mut all = Vec::new();
        for i in 0..packets {
            let f = match choose(4) {
                0 => Fr::T(event_text("/", Some(i as u64), "x", "")),
                1 => Fr::T(event_text("/", None, "y", ",1")),
                2 => Fr::T(event_text("/a", None, "x", "")),
                _ => Fr::T(event_text("/", None, "x", ",[]")),
            };
            if burst {
                all.push(f);
            } else {
                push(ctx, &pushed, &[f]);
                ctx.settle()?;
            }
        }
        if burst {
            all.extend(probes());
            push(ctx, &pushed, &all);
            ctx.settle()?;
        }
        s.budget.store(0, SeqCst);
        push(ctx, &pushed, &probes());
        ctx.settle()?;
        finish(ctx, &s)?;
        let log = s.log.lock().unwrap().clone();
        judge_scene(&pushed.lock().unwrap(), &log, &ctx.net.got(), reg)?;
        Ok(dig(&[log.iter().map(|r| format!("{:?}", r)).collect()]))
    })
}

/// Handlers called with packets of every size, each performing any one operation.
fn c18_sizes(sizes: &'static [usize]) -> Result<u64, Viol> {
    let cfg = WorldCfg {
        max_steps: 10_000_000,
        ..calm()
    };
    run(&cfg, move |ctx| {
        let (s, mut reg) = c18_scene(ctx, 0)?;
        let pushed: Arc<Mutex<Vec<Fr>>> = Arc::default();
        let n = sizes[choose(sizes.len())];
        let (args, count, form): (String, usize, usize) = match choose(4) {
            0 => ((0..n).map(|i| format!(",{}", i)).collect(), 0, 0),
            1 => ((0..n).map(|i| format!(",{{\"_placeholder\":true,\"num\":{}}}", i)).collect(), n, 1),
            2 => (format!(",\"{}\"", "é".repeat(n)), 0, 2),
            _ => (format!(",[{}1{}]", "[".repeat(n.min(100)), "]".repeat(n.min(100))), 0, 3),
        };
        let frames = |kind: u8, ns: &str, id: Option<u64>, first: &str| {
            let k = if count > 0 { kind + 3 } else { kind };
            let c = if count > 0 { format!("{}-", count) } else { String::new() };
            let id = id.map_or(String::new(), |i| i.to_string());
            let list = format!("{}{}", first, args);
            let mut v = vec![Fr::T(format!("4{}{}{}{}[{}]", k, c, ns_prefix(ns), id, list.trim_start_matches(',')))];
            v.extend((0..count).map(|i| crate::model::a(&[i as u8, (i / 256) as u8])));
            v
        };
        let what = choose(3);
        // one operation, in the first handler that runs
        match what {
            0 => {
                s.budget.store(1, SeqCst);
                answering_server(ctx, &pushed);
                push(ctx, &pushed, &frames(2, "/", Some(7), "\"x\""));
            }
            1 => {
                s.budget.store(1, SeqCst);
                answering_server(ctx, &pushed);
                push(ctx, &pushed, &frames(2, "/", None, "\"y\""));
            }
            _ => {
                // an acknowledgement of that size
                let cb = s.ack("CB");
                s.client.lock().unwrap().as_mut().unwrap().emit("e").callback(cb).args().send();
                ctx.settle()?;
                let ps = parse_sent(&ctx.net.take())?;
                let id = ps[0].0.id.unwrap_or(0);
                reg.acks.insert(("/".into(), id), "CB".into());
                s.budget.store(1, SeqCst);
                answering_server(ctx, &pushed);
                push(ctx, &pushed, &frames(3, "/", Some(id), ""));
            }
        }
        ctx.settle()?;
        s.budget.store(0, SeqCst);
        push(ctx, &pushed, &probes());
        ctx.settle()?;
        finish(ctx, &s)?;
        let log = s.log.lock().unwrap().clone();
        judge_scene(&pushed.lock().unwrap(), &log, &ctx.net.got(), reg)?;
        Ok((n * 100 + form * 10 + what) as u64)
    })
}

/// Very many packets, each of whose handlers uses the client.
fn c18_volume(n: usize) -> Result<u64, Viol> {
    let cfg = WorldCfg {
        max_steps: 10_000 + 500 * n as u64,
        ..calm()
    };
    run(&cfg, move |ctx| {
        let mut c = ctx.connect()?;
        let client: Shared = Arc::default();
        let done: Arc<Mutex<Vec<u64>>> = Arc::default();
        let what = choose(3);
        let (cl, d) = (client.clone(), done.clone());
        c.set_event_callback("x", move |a: &Args, ack: Option<AckBuilder>| {
            let k: u64 = a.get(1).and_then(|a| a.deserialize().ok()).unwrap_or(u64::MAX);
            let mut g = cl.lock().unwrap();
            let c = g.as_mut().unwrap();
            match what {
                0 => c.emit("e").args().arg(&k).unwrap().send(),
                1 => {
                    c.set_event_callback(&format!("x{}", k % 100), |_: &Args, _: Option<AckBuilder>| {});
                    ack.unwrap().args().arg(&k).unwrap().send()
                }
                _ => c.emit("e").callback(|_: &Args| {}).args().arg(&k).unwrap().send(),
            }
            d.lock().unwrap().push(k);
        });
        *client.lock().unwrap() = Some(c);
        step();
        for k in 0..n {
            ctx.net.push(&text(&event_text("/", Some(k as u64), "x", &format!(",{}", k))));
            if k % 512 == 511 {
                ctx.settle()?;
            }
        }
        ctx.settle()?;
        let d = done.lock().unwrap().clone();
        if d != (0..n as u64).collect::<Vec<_>>() {
            return Err(viol("delivery", format!("{} handlers completed for {} events", d.len(), n)));
        }
        let ps = parse_sent(&ctx.net.take())?;
        if ps.len() != n {
            return Err(viol("emit", format!("{} packets were sent from {} handlers", ps.len(), n)));
        }
        let c = client.lock().unwrap().take();
        match ctx.close(&mut c.unwrap()) {
            Ok(()) => Ok(what as u64),
            Err(e) => Err(viol("result", format!("close reports {}", e))),
        }
    })
}

/// The same while another thread uses the client: it may hold the client when the handler wants it.
fn c18_threads(budget: usize) -> Result<u64, Viol> {
    run(&WorldCfg::default(), move |ctx| {
        let (s, _) = c18_scene(ctx, budget)?;
        let pushed: Arc<Mutex<Vec<Fr>>> = Arc::default();
        answering_server(ctx, &pushed);
        push(
            ctx,
            &pushed,
            &[
                Fr::T(event_text("/", Some(1), "x", "")),
                Fr::T(event_text("/", None, "y", "")),
            ],
        );
        let what = choose(4);
        let s2 = s.clone();
        let th = sched::spawn("user", false, move || {
            let h = match what {
                0 | 1 => Some(s2.event("U")),
                _ => None,
            };
            let cb = s2.ack("UC");
            let mut g = s2.client.lock().unwrap();
            let c = g.as_mut().unwrap();
            match what {
                0 => c.set_event_callback("x", h.unwrap()),
                1 => c.set_fallback_callback(h.unwrap()),
                2 => c.clear_event_callback("x"),
                _ => c.emit("e").callback(cb).args().send(),
            }
        });
        sched::settle();
        if !sched::is_done(th) {
            return Err(viol("blocked", "a thread using the client did not finish"));
        }
        ctx.settle()?;
        finish(ctx, &s)?;
        let log = s.log.lock().unwrap().clone();
        let calls = log.iter().filter(|r| matches!(r, Rec::Called(..))).count();
        let rets = log.iter().filter(|r| matches!(r, Rec::Returned(..))).count();
        if calls != rets {
            return Err(viol("in-handler-change", format!("a handler did not complete: {:?}", log)));
        }
        Ok(dig(&[log.iter().map(|r| format!("{:?}", r)).collect()]))
    })
}

pub fn c18(tier: Tier) -> Vec<Scenario> {
    let sizes = tier.pick(
        &[0usize, 1, 2, 3, 7, 8, 9, 15, 16, 17, 31, 32, 33, 64, 65, 100, 128, 255, 256, 257, 1_000][..],
        &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 15, 16, 17, 31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257, 1_000, 4_096, 10_000, 65_536],
    );
    let n = tier.pick(10_000, 100_000);
    let mut v = vec![
        scenario("2 operations in handlers of 2 packets", 0, || c18_history(2, 2, false)),
        idling(scenario("2 operations in handlers of 2 packets", 0, || c18_history(2, 2, false))),
        scenario("2 operations in handlers of a burst of 2", tier.pick(0, 1), || c18_history(2, 2, true)),
        scenario("1 operation, another thread uses the client", tier.pick(2, 3), || c18_threads(1)),
        scenario("2 operations, another thread uses the client", tier.pick(1, 2), || c18_threads(2)),
        scenario("3 operations in handlers of 2 packets", 0, || c18_history(3, 2, false)),
        scenario("packets of every size", 0, move || c18_sizes(sizes)),
        scenario(format!("{} packets", n), 0, move || c18_volume(n)),
    ];
    if tier == Tier::Thorough {
        v.push(scenario("4 operations in handlers of 2 packets", 0, || c18_history(4, 2, false)));
        v.push(scenario("3 operations in handlers of a burst of 3", 0, || c18_history(3, 3, true)));
    }
    v
}

// ---------------------------------------------------------------- C19

/// The states the registry went through; `begun` counts changes begun, `done` those completed.
#[derive(Default)]
struct Track {
    states: Vec<Reg>,
    begun: usize,
    done: usize,
}

#[derive(Clone, Copy, Debug)]
enum Ch {
    Set(&'static str, &'static str),
    Clear(&'static str, &'static str),
    Fb(&'static str),
    ClearFb(&'static str),
}
const CHANGES: [Ch; 7] = [
    Ch::Set("/", "x"),
    Ch::Clear("/", "x"),
    Ch::Fb("/"),
    Ch::ClearFb("/"),
    Ch::Set("/a", "x"),
    Ch::Fb("/a"),
    Ch::ClearFb("/a"),
];

struct Seen {
    name: String,
    args: String,
    /// Changes begun when the handler started.
    begun: usize,
}

fn c19_handler(tr: &Arc<Mutex<Track>>, seen: &Arc<Mutex<Vec<Seen>>>, name: &str) -> EventCallback {
    let (tr, seen, name) = (tr.clone(), seen.clone(), name.to_string());
    EventCallback::from(move |args: &Args, _: Option<AckBuilder>| {
        let begun = tr.lock().unwrap().begun;
        log_line(|| format!("{} called, {} changes begun", name, begun));
        seen.lock().unwrap().push(Seen {
            name: name.clone(),
            args: show_args(args),
            begun,
        })
    })
}

fn change(c: &mut Client, tr: &Arc<Mutex<Track>>, seen: &Arc<Mutex<Vec<Seen>>>, ch: Ch, name: &str) {
    {
        let mut t = tr.lock().unwrap();
        let mut r = t.states.last().unwrap().clone();
        match ch {
            Ch::Set(ns, ev) => {
                r.ev.insert((ns.into(), ev.into()), name.into());
            }
            Ch::Clear(ns, ev) => {
                r.ev.remove(&(ns.to_string(), ev.to_string()));
            }
            Ch::Fb(ns) => {
                r.fb.insert(ns.into(), name.into());
            }
            Ch::ClearFb(ns) => {
                r.fb.remove(ns);
            }
        }
        t.states.push(r);
        t.begun += 1;
    }
    log_line(|| format!("change {:?} begins", ch));
    let h = c19_handler(tr, seen, name);
    match ch {
        Ch::Set(ns, ev) => c.set_namespace_event_callback(ns, ev, h),
        Ch::Clear(ns, ev) => c.clear_namespace_event_callback(ns, ev),
        Ch::Fb(ns) => c.set_namespace_fallback_callback(ns, h),
        Ch::ClearFb(ns) => c.clear_namespace_fallback_callback(ns),
    }
    log_line(|| format!("change {:?} is complete", ch));
    tr.lock().unwrap().done += 1;
}

/// Which registry states explain the calls?  `lo` is the number of changes complete when the packet
/// arrived.
fn explain(packets: &[(String, String, String, usize)], seen: &[Seen], states: &[Reg]) -> Result<(), Viol> {
    let all = || -> Vec<String> { seen.iter().map(|s| format!("{} {} (begun {})", s.name, s.args, s.begun)).collect() };
    // Upper bound of every packet: changes begun when it, or the next delivered one, was delivered.
    let mut at: Vec<Option<usize>> = Vec::new();
    let mut k = 0;
    for p in packets {
        if k < seen.len() && seen[k].args == p.2 {
            at.push(Some(k));
            k += 1;
        } else {
            at.push(None);
        }
    }
    if k != seen.len() {
        return Err(viol("lost-or-doubled", format!("calls {:?} do not follow the packets {:?}", all(), packets)));
    }
    let mut hi = vec![states.len() - 1; packets.len()];
    let mut h = states.len() - 1;
    for i in (0..packets.len()).rev() {
        if let Some(k) = at[i] {
            h = h.min(seen[k].begun);
        }
        hi[i] = h;
    }
    let mut cur = 0;
    for (i, p) in packets.iter().enumerate() {
        cur = cur.max(p.3);
        let got = at[i].map(|k| &seen[k].name);
        match (cur..=hi[i]).find(|s| states[*s].lookup(&p.0, &p.1) == got) {
            Some(s) => cur = s,
            None => {
                return Err(viol(
                    "mixture",
                    format!(
                        "packet {} ({} {}) went to {:?}, which no registry state between its arrival and delivery explains (states {}..={} of {:?}); calls {:?}",
                        i, p.0, p.1, got, cur, hi[i], states, all()
                    ),
                ))
            }
        }
    }
    Ok(())
}

/// The same with many other handlers in the registry.
fn c19_crowd(crowd: usize, changers: &'static [usize], packets: usize) -> Result<u64, Viol> {
    c19_in(true, crowd, changers, packets, true)
}

fn c19_run(initial: bool, changers: &'static [usize], packets: usize, late: bool) -> Result<u64, Viol> {
    c19_in(initial, 0, changers, packets, late)
}

fn c19_in(initial: bool, crowd: usize, changers: &'static [usize], packets: usize, late: bool) -> Result<u64, Viol> {
    run(&WorldCfg::default(), move |ctx| {
        let mut c = ctx.connect()?;
        let tr: Arc<Mutex<Track>> = Arc::new(Mutex::new(Track {
            states: vec![Reg::default()],
            ..Track::default()
        }));
        let seen: Arc<Mutex<Vec<Seen>>> = Arc::default();
        if initial {
            mcrt::costed_choices(false);
            change(&mut c, &tr, &seen, Ch::Set("/", "x"), "X");
            change(&mut c, &tr, &seen, Ch::Fb("/"), "F");
            change(&mut c, &tr, &seen, Ch::Fb("/a"), "AF");
            for i in 0..crowd {
                let none = |_: &Args, _: Option<AckBuilder>| {};
                c.set_event_callback(&format!("other{}", i), none);
                c.set_namespace_event_callback("/a", &format!("other{}", i), none);
                c.set_namespace_event_callback(&format!("/other{}", i), "x", none);
            }
            mcrt::costed_choices(true);
        }
        let client = Arc::new(Mutex::new(c));
        let mut ps: Vec<(String, String, String, usize)> = Vec::new();
        let send = |n: usize, ps: &mut Vec<(String, String, String, usize)>| {
            let done = tr.lock().unwrap().done;
            let (ns, ev) = match choose(3) {
                0 => ("/", "x"),
                1 => ("/a", "x"),
                _ => ("/", "y"),
            };
            ps.push((ns.into(), ev.into(), format!("[{:?},{}]", ev, n), done));
            ctx.net.text(&event_text(ns, None, ev, &format!(",{}", n))[..]);
        };
        let mut ids = Vec::new();
        for (t, n) in changers.iter().enumerate() {
            let chs: Vec<Ch> = (0..*n).map(|_| CHANGES[choose(CHANGES.len())]).collect();
            let (client, tr, seen) = (client.clone(), tr.clone(), seen.clone());
            ids.push(sched::spawn(format!("changer {}", t), false, move || {
                for (k, ch) in chs.into_iter().enumerate() {
                    let mut c = client.lock().unwrap();
                    change(&mut c, &tr, &seen, ch, &format!("t{}c{}", t, k));
                }
            }));
        }
        for i in 0..packets {
            send(i, &mut ps);
            if late {
                mcrt::point("next packet");
            }
        }
        ctx.settle()?;
        for id in ids {
            if !sched::is_done(id) {
                return Err(viol("blocked", "a thread changing handlers did not finish"));
            }
        }
        {
            // Whatever happened before, the final set is in force now.
            mcrt::costed_choices(false);
            for (i, (ns, ev)) in [("/", "x"), ("/", "y"), ("/a", "x"), ("/a", "y")].iter().enumerate() {
                let done = tr.lock().unwrap().done;
                ps.push((ns.to_string(), ev.to_string(), format!("[{:?},{}]", ev, 90 + i), done));
                ctx.net.text(&event_text(ns, None, ev, &format!(",{}", 90 + i)));
            }
            ctx.settle()?;
        }
        let r = ctx.close(&mut client.lock().unwrap());
        if let Err(e) = r {
            return Err(viol("result", format!("close reports {}", e)));
        }
        let states = tr.lock().unwrap().states.clone();
        let seen = seen.lock().unwrap();
        explain(&ps, &seen, &states)?;
        Ok(dig(&[seen.iter().map(|s| format!("{} {}", s.name, s.args)).collect()]))
    })
}

pub fn c19(tier: Tier) -> Vec<Scenario> {
    let b = tier.pick(2, 3);
    let mut v = vec![
        scenario("2 changes, 2 packets", b, || c19_run(true, &[2], 2, false)),
        scenario("2 changes, 2 packets arriving apart", b, || c19_run(true, &[2], 2, true)),
        idling(scenario("2 changes, 2 packets arriving apart", b - 1, || c19_run(true, &[2], 2, true))),
        scenario("2 changes, empty registry, 2 packets", b, || c19_run(false, &[2], 2, false)),
        scenario("two changers, 2 packets", b, || c19_run(true, &[1, 1], 2, false)),
        scenario("3 changes, 1 packet", b, || c19_run(true, &[3], 1, false)),
        scenario("2 changes among 20 handlers, 1 packet", b, || c19_crowd(20, &[2], 1)),
        scenario("2 changes among 1000 handlers, 1 packet", b - 1, || c19_crowd(1_000, &[2], 1)),
    ];
    if tier == Tier::Thorough {
        v.push(scenario("3 changes, 2 packets", 2, || c19_run(true, &[3], 2, true)));
        v.push(scenario("2 changes, 3 packets", 3, || c19_run(true, &[2], 3, true)));
        v.push(scenario("two changers, 2 changes each", 2, || c19_run(true, &[2, 2], 2, false)));
    }
    v
}

// ---------------------------------------------------------------- C21

/// Counts the values alive.
#[derive(Clone, Default)]
struct Alive(Arc<AtomicUsize>);
struct Guard(Arc<AtomicUsize>);
impl Alive {
    fn guard(&self) -> Guard {
        self.0.fetch_add(1, SeqCst);
        Guard(self.0.clone())
    }
    fn count(&self) -> usize {
        self.0.load(SeqCst)
    }
}
impl Drop for Guard {
    fn drop(&mut self) {
        self.0.fetch_sub(1, SeqCst);
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum DropBy {
    Main,
    Thread,
    Handler,
    AckHandler,
}

/// A client with traffic in both directions is dropped at a point of the explorer's choice.
fn c21_run(by: DropBy, busy: bool, blocked: bool, preempt: bool) -> Result<u64, Viol> {
    let cfg = WorldCfg {
        preempt,
        ..WorldCfg::default()
    };
    run(&cfg, move |ctx| {
        let client: Shared = Arc::default();
        let alive = Alive::default();
        let store: Arc<Mutex<Vec<AckBuilder>>> = Arc::default();
        let mut c = ctx.connect()?;
        let task = ctx.task();
        // Polls begun when the drop was complete.
        let dropped_at: Arc<Mutex<Option<usize>>> = Arc::default();
        let late: Arc<Mutex<Vec<String>>> = Arc::default();
        let dropper = {
            let (client, task, at) = (client.clone(), task.clone(), dropped_at.clone());
            move || {
                let c = client.lock().unwrap().take();
                if let Some(c) = c {
                    log_line(|| "client is dropped".into());
                    drop(c);
                    *at.lock().unwrap() = Some(task.polls.load(SeqCst));
                    log_line(|| "client dropped".into());
                }
            }
        };
        let check = {
            let (task, at, late) = (task.clone(), dropped_at.clone(), late.clone());
            move |what: &str| {
                if let Some(p) = *at.lock().unwrap() {
                    if task.polls.load(SeqCst) > p {
                        late.lock().unwrap().push(what.to_string())
                    }
                }
            }
        };
        for (i, (ns, ev)) in [("/", "x"), ("/a", "x"), ("/", "drop")].iter().enumerate() {
            let (g, obs, store, check, dropper) = (alive.guard(), ctx.obs.clone(), store.clone(), check.clone(), dropper.clone());
            let ev2 = ev.to_string();
            c.set_namespace_event_callback(ns, ev, move |args: &Args, ack: Option<AckBuilder>| {
                let _g = &g;
                check(&format!("handler {} ran in a poll begun after the drop", i));
                obs.push(format!("h{} {}", i, show_args(args)));
                if let Some(a) = ack {
                    store.lock().unwrap().push(a)
                }
                if ev2 == "drop" && by == DropBy::Handler {
                    dropper()
                }
            });
        }
        let (g, obs, ck) = (alive.guard(), ctx.obs.clone(), check.clone());
        c.set_fallback_callback(move |args: &Args, _: Option<AckBuilder>| {
            let _g = &g;
            ck("fallback ran in a poll begun after the drop");
            obs.push(format!("fb {}", show_args(args)));
        });
        let mut id = 0;
        for i in 0..2 {
            let (g, obs, ck, dropper) = (alive.guard(), ctx.obs.clone(), check.clone(), dropper.clone());
            let cb = move |args: &Args| {
                let _g = &g;
                ck("acknowledgement callback ran in a poll begun after the drop");
                obs.push(format!("cb{} {}", i, show_args(args)));
                if by == DropBy::AckHandler {
                    dropper()
                }
            };
            c.emit("e").callback(cb).args().send();
            if i == 0 {
                // The answer to it needs its id.
                mcrt::costed_choices(false);
                sched::settle();
                mcrt::costed_choices(true);
                id = crate::client_a::asked_id(ctx)?;
            }
        }
        *client.lock().unwrap() = Some(c);
        if blocked {
            ctx.net.credit(Some(choose(8)));
        }
        if busy {
            ctx.net.text(r#"425["x",1]"#);
            ctx.net.text(r#"451-/a,["x",{"_placeholder":true,"num":0}]"#);
            if choose(2) == 1 {
                ctx.net.push(&att(b"q"));
            }
            ctx.net.text("2");
            ctx.net.text(r#"42["drop"]"#);
            ctx.net.text(&format!("43{}[1]", id));
            ctx.net.text(r#"42["x",2]"#);
        } else if by != DropBy::Main && by != DropBy::Thread {
            ctx.net.text(r#"425["x",1]"#);
            ctx.net.text(r#"42["drop"]"#);
            ctx.net.text(&format!("43{}[1]", id));
            ctx.net.text(r#"42["x",2]"#);
        }
        match by {
            DropBy::Main => {
                for _ in 0..choose(4) {
                    mcrt::point("before drop");
                }
                if choose(2) == 1 {
                    sched::settle();
                }
                dropper();
            }
            DropBy::Thread => {
                let d = dropper.clone();
                sched::spawn("dropper", false, move || d());
                if let Some(c) = client.lock().unwrap().as_mut() {
                    c.clear_event_callback("y");
                    c.emit("e").args().send();
                }
            }
            _ => {}
        }
        sched::settle();
        if client.lock().unwrap().is_some() {
            if (by == DropBy::Handler || by == DropBy::AckHandler) && !busy && !blocked {
                return Err(viol("delivery", "the dropping handler did not run"));
            }
            dropper();
            sched::settle();
        }
        let l = late.lock().unwrap().clone();
        if !l.is_empty() {
            return Err(viol("handler-after-drop", l.join(", ")));
        }
        if !ctx.task_done() {
            return Err(viol("task-left", "the connection task goes on after the client was dropped"));
        }
        if !ctx.net.dropped() {
            return Err(viol("transport-left", "the transport is not released after the client was dropped"));
        }
        if alive.count() != 0 {
            return Err(viol("handlers-left", format!("{} handlers are not released after the client was dropped", alive.count())));
        }
        // Replies that come too late.
        let mut k = 0;
        for a in store.lock().unwrap().drain(..) {
            match k % 3 {
                0 => a.args().arg("late").unwrap().send(),
                1 => drop(a),
                _ => drop(a.binary(true).args().arg(&[1u8][..]).unwrap()),
            }
            k += 1;
        }
        sched::settle();
        Ok(dig(&[ctx.obs.get(), shown(&ctx.net.got())]))
    })
}

/// Drop after the connection has ended by itself, or while closing.
fn c21_ended() -> Result<u64, Viol> {
    run(&calm(), move |ctx| {
        let alive = Alive::default();
        let mut c = ctx.connect()?;
        let g = alive.guard();
        let store: Arc<Mutex<Vec<AckBuilder>>> = Arc::default();
        let s = store.clone();
        c.set_event_callback("x", move |_: &Args, a: Option<AckBuilder>| {
            let _g = &g;
            s.lock().unwrap().extend(a)
        });
        let g = alive.guard();
        c.emit("e").callback(move |_: &Args| drop(g)).args().send();
        ctx.net.text(r#"421["x"]"#);
        sched::settle();
        match choose(6) {
            0 => ctx.net.eof(),
            1 => ctx.net.server_close(Some(1000)),
            2 => ctx.net.text("4318446744073709551000[]"),
            3 => ctx.net.with(|n| n.read_err = Some(std::io::ErrorKind::ConnectionReset)),
            4 => {
                // Start closing, then give up on it.
                ctx.net.with(|n| n.on_close = OnClose::Nothing);
                let mut f = Box::pin(c.close());
                let w = futures::task::noop_waker();
                let mut cx = std::task::Context::from_waker(&w);
                for _ in 0..choose(3) {
                    if std::future::Future::poll(f.as_mut(), &mut cx).is_ready() {
                        return Err(viol("close", "close returned although the server did not answer"));
                    }
                    if choose(2) == 1 {
                        sched::settle();
                    }
                }
                drop(f);
            }
            _ => {
                ctx.net.with(|n| n.on_close = OnClose::Nothing);
                if ctx.close(&mut c).is_ok() {
                    return Err(viol("close", "close succeeded although the server did not answer"));
                }
            }
        }
        if choose(2) == 1 {
            sched::settle();
        }
        // Using a client whose connection is over does nothing bad.
        c.emit("late").callback(|_: &Args| {}).args().send();
        c.set_event_callback("y", |_: &Args, _: Option<AckBuilder>| {});
        drop(c);
        sched::settle();
        if !ctx.task_done() {
            return Err(viol("task-left", "the connection task goes on after the client was dropped"));
        }
        if !ctx.net.dropped() {
            return Err(viol("transport-left", "the transport is not released after the client was dropped"));
        }
        if alive.count() != 0 {
            return Err(viol("handlers-left", format!("{} handlers are not released after the client was dropped", alive.count())));
        }
        for a in store.lock().unwrap().drain(..) {
            a.args().arg("late").unwrap().send()
        }
        Ok(dig(&[shown(&ctx.net.got())]))
    })
}

pub fn c21(tier: Tier) -> Vec<Scenario> {
    let b = tier.pick(3, 4);
    vec![
        scenario("connection over, then dropped", 1, c21_ended),
        scenario("idle, dropped", b, || c21_run(DropBy::Main, false, false, true)),
        scenario("busy, dropped by the main thread", b, || c21_run(DropBy::Main, true, false, true)),
        scenario("busy and blocked, dropped by the main thread", b - 1, || c21_run(DropBy::Main, true, true, true)),
        scenario("busy, dropped by another thread", b, || c21_run(DropBy::Thread, true, false, true)),
        scenario("busy and blocked, dropped by another thread", b - 1, || c21_run(DropBy::Thread, true, true, true)),
        scenario("dropped by a handler", 1, || c21_run(DropBy::Handler, false, false, true)),
        scenario("dropped by an acknowledgement callback", 1, || c21_run(DropBy::AckHandler, false, false, true)),
        scenario("busy, dropped by a handler", b, || c21_run(DropBy::Handler, true, false, true)),
    ]
}

// ---------------------------------------------------------------- C22

/// Emitting threads against a server that answers the moment a packet is written.
fn c22_run(threads: usize, each: usize, extra: bool, delay: bool) -> Result<u64, Viol> {
    run(&WorldCfg::default(), move |ctx| {
        let c = ctx.connect()?;
        let pushed: Arc<Mutex<Vec<Fr>>> = Arc::default();
        answering_server(ctx, &pushed);
        if delay {
            ctx.net.with(|n| {
                n.wpend = true;
                n.rpend = true
            });
        }
        let client = Arc::new(Mutex::new(c));
        let registered = Arc::new(AtomicBool::new(false));
        let mut ids = Vec::new();
        for t in 0..threads {
            let (client, obs) = (client.clone(), ctx.obs.clone());
            let kinds: Vec<usize> = (0..each).map(|_| choose(4)).collect();
            ids.push(sched::spawn(format!("emitter {}", t), false, move || {
                for (i, k) in kinds.into_iter().enumerate() {
                    let name = format!("t{}e{}", t, i);
                    let cb = {
                        let obs = obs.clone();
                        let name = name.clone();
                        move |args: &Args| obs.push(format!("{} {}", name, show_args(args)))
                    };
                    let mut g = client.lock().unwrap();
                    let ns = ["/", "/a", "/", "/a"][k];
                    if k == 3 {
                        // no callback
                        g.namespace_emit(ns, &name).args().send();
                        continue;
                    }
                    let b = g.namespace_emit(ns, &name).binary(k == 2).callback(cb).args();
                    let b = if k == 2 { b.arg(&[7u8, 8][..]).unwrap() } else { b };
                    b.send();
                }
            }));
        }
        if extra {
            let (client, r, obs) = (client.clone(), registered.clone(), ctx.obs.clone());
            ids.push(sched::spawn("registrar", false, move || {
                let mut g = client.lock().unwrap();
                g.set_event_callback("late", move |a: &Args, _: Option<AckBuilder>| obs.push(format!("late {}", show_args(a))));
                g.set_namespace_fallback_callback("/a", |_: &Args, _: Option<AckBuilder>| {});
                g.clear_namespace_fallback_callback("/a");
                r.store(true, SeqCst);
            }));
        }
        ctx.settle()?;
        for id in ids {
            if !sched::is_done(id) {
                return Err(viol("blocked", "an emitting thread did not finish"));
            }
        }
        // What was emitted with which id tells which callback must have run with what.
        let mut want = Vec::new();
        let mut used = Vec::new();
        for p in parse_sent(&ctx.net.got())? {
            if p.0.kind != Kind::Event {
                continue;
            }
            let d = crate::model::Delivery {
                packet: p.0.clone(),
                atts: p.1.clone(),
            };
            if let Some(id) = p.0.id {
                if used.contains(&id) {
                    return Err(viol("id", format!("id {} is used twice: {}", id, packet_show(&p))));
                }
                used.push(id);
                want.push(format!("{} [{}]", d.event().unwrap_or_default(), id));
            }
        }
        let mut got = ctx.obs.get();
        let mut w = want.clone();
        got.sort();
        w.sort();
        eq_list("fast-ack", "callbacks run (sorted)", &got, &w)?;
        if extra {
            ctx.net.text(r#"42["late",1]"#);
            ctx.settle()?;
            if !ctx.obs.get().contains(&r#"late ["late",1]"#.to_string()) {
                return Err(viol("registration", "a handler registered meanwhile is not in force"));
            }
        }
        let r = ctx.close(&mut client.lock().unwrap());
        match r {
            Ok(()) => Ok(dig(&[ctx.obs.get()])),
            Err(e) => Err(viol("fast-ack", format!("close reports {}", e))),
        }
    })
}

/// Very many emissions, each answered the moment it is written.
fn c22_volume(n: usize) -> Result<u64, Viol> {
    let cfg = WorldCfg {
        max_steps: 10_000 + 500 * n as u64,
        ..calm()
    };
    run(&cfg, move |ctx| {
        let mut c = ctx.connect()?;
        let pushed: Arc<Mutex<Vec<Fr>>> = Arc::default();
        answering_server(ctx, &pushed);
        let ran: Arc<Mutex<Vec<Vec<u64>>>> = Arc::new(Mutex::new(vec![Vec::new(); n]));
        // how many are written before the answers are read, and whether all stay unwritten at first
        let every = [1usize, 70, 512][choose(3)];
        let blocked = choose(2) == 1;
        let silent = choose(2) == 1;
        step();
        if blocked {
            ctx.net.credit(Some(0));
        }
        let mut want = Vec::new();
        for i in 0..n {
            let r = ran.clone();
            let ns = if i % 5 == 3 { "/a" } else { "/" };
            let b = c.namespace_emit(ns, "e");
            if silent && i % 3 == 2 {
                // nobody waits for an answer to this one
                b.args().send();
            } else {
                let cb = move |a: &Args| {
                    let id: u64 = a.get(0).and_then(|a| a.deserialize().ok()).unwrap_or(u64::MAX);
                    r.lock().unwrap()[i].push(id)
                };
                b.callback(cb).args().send();
                want.push(i);
            }
            if i % every == every - 1 {
                ctx.settle()?;
            }
        }
        ctx.net.credit(None);
        ctx.settle()?;
        let ps = parse_sent(&ctx.net.take())?;
        let ids: Vec<u64> = ps.iter().filter_map(|p| p.0.id).collect();
        if ps.len() != n || ids.len() != want.len() {
            return Err(viol("wire", format!("{} emissions, {} with callbacks; {} packets, {} with ids", n, want.len(), ps.len(), ids.len())));
        }
        let r = ran.lock().unwrap().clone();
        for (k, i) in want.iter().enumerate() {
            if r[*i] != [ids[k]] {
                return Err(viol("fast-ack", format!("callback {} of {} was run with the answers {:?} instead of {}", i, n, r[*i], ids[k])));
            }
        }
        match ctx.close(&mut c) {
            Ok(()) => Ok((every * 4 + blocked as usize * 2 + silent as usize) as u64),
            Err(e) => Err(viol("fast-ack", format!("close reports {}", e))),
        }
    })
}

pub fn c22(tier: Tier) -> Vec<Scenario> {
    let n = tier.pick(70_000, 300_000);
    let b = tier.pick(2, 3);
    let mut v = vec![
        scenario("1 thread, 2 emissions", b + 1, || c22_run(1, 2, false, false)),
        idling(scenario("1 thread, 2 emissions", b, || c22_run(1, 2, false, false))),
        scenario("2 threads, 1 emission each", b, || c22_run(2, 1, false, false)),
        scenario("2 threads and registrations", b, || c22_run(2, 1, true, false)),
        scenario("1 thread, 2 emissions, slow transport", b, || c22_run(1, 2, false, true)),
        scenario("2 threads, 2 emissions each", b - 1, || c22_run(2, 2, false, false)),
        scenario(format!("{} emissions", n), 0, move || c22_volume(n)),
    ];
    if tier == Tier::Thorough {
        v.push(scenario("3 threads, 1 emission each", 2, || c22_run(3, 1, true, false)));
        v.push(scenario("1 thread, 3 emissions", 3, || c22_run(1, 3, false, false)));
    }
    v
}
