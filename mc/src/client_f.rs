//! Checks C26 (nothing is kept longer than needed) and C27 (a client whose connection is over).
use std::collections::BTreeMap;
use std::future::Future;
use std::pin::Pin;
use std::sync::{Arc, Mutex};

use mcrt::explore::{choose, log_line, step, Scenario, Viol};
use mcrt::sched::{self, WorldCfg};
use socket_io_client::protocol::Args;
use socket_io_client::{AckBuilder, Client, Error, EventCallback};

use crate::client_a::{calm, event_text, parse_sent, still};
use crate::client_b::Abandon;
use crate::driver::{idling, scenario, viol, Tier};
use crate::heap;
use crate::world::*;

// ---------------------------------------------------------------- C26

/// The named values that are alive.
#[derive(Clone, Default)]
struct Held(Arc<Mutex<BTreeMap<String, usize>>>);
struct Token(Held, String);
impl Held {
    fn token(&self, name: &str) -> Token {
        *self.0.lock().unwrap().entry(name.to_string()).or_default() += 1;
        Token(self.clone(), name.to_string())
    }
    fn names(&self) -> Vec<String> {
        self.0.lock().unwrap().keys().cloned().collect()
    }
}
impl Drop for Token {
    fn drop(&mut self) {
        let mut m = (self.0).0.lock().unwrap();
        let n = m.get_mut(&self.1).unwrap();
        *n -= 1;
        if *n == 0 {
            m.remove(&self.1);
        }
    }
}

const PLACES: [(&str, Option<&str>); 4] = [("/", Some("x")), ("/", None), ("/a", Some("x")), ("/a", None)];

fn register(c: &mut Client, place: (&str, Option<&str>), cb: EventCallback) {
    match place {
        (ns, Some(e)) => c.set_namespace_event_callback(ns, e, cb),
        (ns, None) => c.set_namespace_fallback_callback(ns, cb),
    }
}
fn unregister(c: &mut Client, place: (&str, Option<&str>)) {
    match place {
        (ns, Some(e)) => c.clear_namespace_event_callback(ns, e),
        (ns, None) => c.clear_namespace_fallback_callback(ns),
    }
}

/// Handlers and callbacks hold a value each; after every operation exactly those are alive that are
/// in force or outstanding.
fn c26_history(depth: usize) -> Result<u64, Viol> {
    run(&still(), move |ctx| {
        let held = Held::default();
        let mut c = ctx.connect()?;
        mcrt::costed_choices(false);
        let replies: Arc<Mutex<Vec<AckBuilder>>> = Arc::default();
        let mut places: [Option<String>; 4] = Default::default();
        let mut out: Vec<(u64, String, &str)> = Vec::new();
        let both = |name: &str| {
            let (t, r) = (held.token(name), replies.clone());
            EventCallback::from(move |_: &Args, a: Option<AckBuilder>| {
                let _t = &t;
                r.lock().unwrap().extend(a)
            })
        };
        let mut trace = Vec::new();
        for i in 0..depth {
            step();
            let op = choose(19);
            log_line(|| format!("operation {}", op));
            let name = format!("v{}", i);
            match op {
                0..=3 => {
                    register(&mut c, PLACES[op], both(&name));
                    places[op] = Some(name);
                }
                4..=7 => {
                    unregister(&mut c, PLACES[op - 4]);
                    places[op - 4] = None;
                }
                8 => {
                    // one handler in two places
                    let cb = both(&name);
                    register(&mut c, PLACES[0], cb.clone());
                    register(&mut c, PLACES[3], cb);
                    places[0] = Some(name.clone());
                    places[3] = Some(name);
                }
                9..=12 => {
                    let t = held.token(&name);
                    let ns = if op == 10 { "/a" } else { "/" };
                    let b = c.namespace_emit(ns, "e").binary(op == 10).callback(move |_: &Args| drop(t));
                    match op {
                        11 => drop(b),
                        12 => drop(b.args().arg(&vec![1u8, 2]).unwrap()),
                        _ => {
                            b.args().arg(&vec![1u8, 2]).unwrap().send();
                            ctx.settle()?;
                            match parse_sent(&ctx.net.take())?.last().and_then(|p| p.0.id) {
                                Some(id) => out.push((id, name, ns)),
                                None => return Err(viol("wire", "an emission with a callback left without an id")),
                            }
                        }
                    }
                }
                13 | 14 => {
                    // the oldest or the newest is answered
                    if !out.is_empty() {
                        let (id, _, ns) = out.remove(if op == 13 { 0 } else { out.len() - 1 });
                        let ns = if ns == "/" { String::new() } else { format!("{},", ns) };
                        if op == 13 {
                            ctx.net.text(&format!("43{}{}[1]", ns, id));
                        } else {
                            ctx.net.text(&format!("461-{}{}[{{\"_placeholder\":true,\"num\":0}}]", ns, id));
                            ctx.net.push(&att(b"data"));
                        }
                    }
                }
                15 => ctx.net.text(&event_text("/", Some(1), "x", ",1")),
                16 => ctx.net.text(&event_text("/a", None, "x", ",1")),
                17 => {
                    // replaced and cleared while it runs
                    let slot: Arc<Mutex<Option<Client>>> = Arc::default();
                    let (t, s) = (held.token("inside"), slot.clone());
                    let cb = both(&name);
                    c.set_event_callback("self", move |_: &Args, _: Option<AckBuilder>| {
                        let _t = &t;
                        if let Some(c) = s.lock().unwrap().as_mut() {
                            c.set_event_callback("x", cb.clone());
                            c.clear_event_callback("self");
                        }
                    });
                    *slot.lock().unwrap() = Some(c);
                    ctx.net.text("42[\"self\"]");
                    ctx.settle()?;
                    c = slot.lock().unwrap().take().unwrap();
                    places[0] = Some(name);
                }
                _ => {
                    let r = replies.lock().unwrap().pop();
                    if let Some(r) = r {
                        r.args().arg("reply").unwrap().send()
                    }
                }
            }
            ctx.settle()?;
            ctx.net.take();
            let mut want: Vec<String> = places.iter().flatten().cloned().chain(out.iter().map(|o| o.1.clone())).collect();
            want.sort();
            want.dedup();
            let got = held.names();
            if got != want {
                return Err(viol(
                    "held",
                    format!("after operation {} (the {}th) the values {:?} of handlers and callbacks are alive, in force or outstanding are {:?}", op, i + 1, got, want),
                ));
            }
            trace.push(format!("{} {:?}", op, got));
        }
        if let Err(e) = ctx.close(&mut c) {
            return Err(viol("result", format!("close reports {}", e)));
        }
        drop(c);
        sched::settle();
        if !held.names().is_empty() {
            return Err(viol("held", format!("{:?} outlive the client", held.names())));
        }
        Ok(dig(&[trace]))
    })
}

/// Operations that leave the session as they found it.
const CYCLES: usize = 30;

fn cycle(ctx: &Ctx, c: &mut Client, op: usize, round: usize, replies: &Arc<Mutex<Vec<AckBuilder>>>) -> Result<(), Viol> {
    let net = &ctx.net;
    let settle = || {
        sched::settle();
        if ctx.task_done() {
            Err(viol("result", "the connection ended amid valid traffic"))
        } else {
            Ok(())
        }
    };
    let big = [7u8; 40];
    match op {
        0 => c.set_event_callback("x", |_: &Args, _: Option<AckBuilder>| {}),
        1 => {
            c.set_namespace_event_callback("/a", "once", |_: &Args, _: Option<AckBuilder>| {});
            c.clear_namespace_event_callback("/a", "once");
        }
        2 => {
            c.set_namespace_fallback_callback("/b", |_: &Args, _: Option<AckBuilder>| {});
            c.clear_namespace_fallback_callback("/b");
        }
        3 => c.emit("e").args().arg("text").unwrap().send(),
        4 => c.namespace_emit("/n", "e").binary(true).args().arg(&big[..]).unwrap().arg(&big[..]).unwrap().send(),
        5 | 6 => {
            let b = c.namespace_emit("/n", "e").binary(op == 6).callback(|a: &Args| {
                let _ = show_args(a);
            });
            b.args().arg(&big[..]).unwrap().send();
            settle()?;
            let id = parse_sent(&net.take())?.last().and_then(|p| p.0.id);
            let id = id.ok_or_else(|| viol("wire", "an emission with a callback left without an id"))?;
            if op == 5 {
                net.text(&format!("43/n,{}[\"answer\"]", id));
            } else {
                net.text(&format!("461-/n,{}[{{\"_placeholder\":true,\"num\":0}}]", id));
                net.push(&att(&big));
            }
        }
        7 => drop(c.emit("e").callback(|_: &Args| {}).args().arg(&big[..]).unwrap()),
        8 => drop(c.emit("e").callback(|_: &Args| {})),
        9 => {
            let mut b = c.emit("e").binary(true).args();
            let failing = std::collections::HashMap::from([(Some(vec![1u8]), &big[..])]);
            if b.arg_ref(&(&big[..], failing)).is_ok() {
                return Err(viol("wire", "a map with sequences as keys was accepted"));
            }
            b.send()
        }
        10 => net.text("42[\"nobody\",[1,{\"a\":2}]]"),
        11 => net.text("42[\"x\",\"text\"]"),
        12 => net.text("421[\"reply\",\"text\"]"),
        13 => net.text("42/never,[\"seen\"]"),
        14 => net.text("427[\"drop\"]"),
        15 => {
            net.text("452-5[\"keep\",{\"_placeholder\":true,\"num\":1},{\"_placeholder\":true,\"num\":0}]");
            net.push(&att(&big));
            net.text("2");
            net.push(&att(&big));
            settle()?;
            let r = replies.lock().unwrap().pop();
            if let Some(r) = r {
                r.binary(true).args().arg(&big[..]).unwrap().send()
            }
        }
        16 => net.text("2"),
        17 => net.push(&frame(9, b"ping")),
        18 => net.text("40/never,"),
        19 => net.text("41/never,"),
        20 => net.text("42[\"inside\"]"),
        21 => {
            net.push(&frame_raw(0x01, b"42[\"x\","));
            net.push(&frame_raw(0x80, b"1]"));
        }
        22 => {
            net.credit(Some(3));
            c.emit("slow").args().arg(&big[..]).unwrap().send();
            net.text("2");
            settle()?;
            net.credit(None);
        }
        // names and ids that never come again
        23 => net.text(&format!("42[\"nobody{:04}\",1]", round)),
        24 => net.text(&format!("42/never{:04},{:04}[\"x\"]", round, round + 1_000)),
        25 => net.text(&format!("42{:04}[\"reply\"]", round + 1_000)),
        26 => {
            net.text(&format!("40/never{:04},", round));
            net.text(&format!("41/never{:04},", round));
        }
        27 => {
            let name = format!("new{:04}", round);
            c.set_event_callback(&name, |_: &Args, _: Option<AckBuilder>| {});
            net.text(&format!("42[\"{}\",2]", name));
            settle()?;
            c.clear_event_callback(&name);
        }
        28 => {
            let name = format!("new{:04}", round);
            c.emit(&name).args().arg(&name).unwrap().send();
            c.namespace_emit(&format!("/new{:04}", round), &name).args().send();
        }
        29 => {
            net.text(&format!("451-{}[\"nobody{:04}\",{{\"_placeholder\":true,\"num\":0}}]", round + 1_000, round));
            net.push(&att(format!("attachment {:04}", round).as_bytes()));
        }
        _ => unreachable!(),
    }
    Ok(())
}

/// A session that does the same over and over holds no more memory after many rounds than after some.
fn c26_rounds(len: usize) -> Result<u64, Viol> {
    run(&still(), move |ctx| {
        let ops: Vec<usize> = (0..len).map(|_| choose(CYCLES)).collect();
        log_line(|| format!("each round: {:?}", ops));
        let c = ctx.connect()?;
        mcrt::costed_choices(false);
        let slot = Arc::new(Mutex::new(Some(c)));
        let replies: Arc<Mutex<Vec<AckBuilder>>> = Arc::default();
        {
            let mut s = slot.lock().unwrap();
            let c = s.as_mut().unwrap();
            c.set_event_callback("reply", |a: &Args, b: Option<AckBuilder>| {
                let _ = show_args(a);
                b.unwrap().args().arg("ok").unwrap().send()
            });
            c.set_event_callback("drop", |_: &Args, b: Option<AckBuilder>| drop(b));
            let r = replies.clone();
            c.set_event_callback("keep", move |_: &Args, b: Option<AckBuilder>| r.lock().unwrap().extend(b));
            let s = slot.clone();
            c.set_event_callback("inside", move |_: &Args, _: Option<AckBuilder>| {
                if let Ok(mut s) = s.try_lock() {
                    let c = s.as_mut().unwrap();
                    c.emit("e").args().send();
                    c.set_event_callback("y", |_: &Args, _: Option<AckBuilder>| {});
                    c.clear_event_callback("y");
                }
            });
        }
        const WARM: usize = 96;
        const MORE: usize = 160;
        let mut at = Vec::new();
        // The log of a replay would count as growth.
        let logged = mcrt::explore::set_logging(false);
        for i in 0..WARM + MORE {
            for op in &ops {
                let mut s = slot.lock().unwrap();
                cycle(ctx, s.as_mut().unwrap(), *op, i, &replies)?;
                drop(s);
                ctx.settle()?;
                if ctx.task_done() {
                    return Err(viol("result", "the connection ended amid valid traffic"));
                }
            }
            step();
            ctx.net.forget();
            ctx.obs.take();
            if i + 1 == WARM || i + 1 == WARM + MORE {
                at.push(heap::live());
            }
        }
        mcrt::explore::set_logging(logged);
        let (n, b) = (at[1].0 - at[0].0, at[1].1 - at[0].1);
        if n > MORE as i64 / 2 || b > 6 * MORE as i64 {
            return Err(viol(
                "growth",
                format!("{} rounds of the operations {:?} leave {} more allocations and {} more bytes behind", MORE, ops, n, b),
            ));
        }
        let c = slot.lock().unwrap().take();
        let mut c = c.unwrap();
        if let Err(e) = ctx.close(&mut c) {
            return Err(viol("result", format!("close reports {}", e)));
        }
        Ok(dig(&[ops.iter().map(|o| o.to_string()).collect()]))
    })
}

pub fn c26(tier: Tier) -> Vec<Scenario> {
    let d = tier.pick(4, 5);
    let l = 3;
    vec![
        scenario(format!("histories of {}", d), 0, move || c26_history(d)),
        scenario("rounds of 1", 0, || c26_rounds(1)),
        idling(scenario("rounds of 2", 0, || c26_rounds(2))),
        scenario(format!("rounds of {}", l), 0, move || c26_rounds(l)),
    ]
}

// ---------------------------------------------------------------- C27

const CAUSES: [&str; 15] = [
    "closed by the user",
    "close timed out",
    "closed by the server",
    "end of stream",
    "read error",
    "write error",
    "malformed packet",
    "unasked acknowledgement",
    "text in place of an attachment",
    "invalid frame",
    "second open",
    "closed by the server, whose stream stays open",
    "close given up before the task has run",
    "close given up while the server is silent",
    "close given up while the transport takes nothing",
];
/// Those with what the thread scenarios need: a first close is still possible.
const OPEN_ENDED: std::ops::Range<usize> = 2..11;

/// Ends the connection; returns whether `close` is used up.
fn end_by(ctx: &Ctx, c: &mut Client, cause: usize) -> Result<bool, Viol> {
    let net = &ctx.net;
    log_line(|| CAUSES[cause].to_string());
    match cause {
        0 => {
            if let Err(e) = ctx.close(c) {
                return Err(viol("result", format!("close reports {}", e)));
            }
        }
        1 => {
            net.with(|n| n.on_close = OnClose::Nothing);
            match ctx.close(c) {
                Err(Error::Timeout(_)) => (),
                r => return Err(viol("result", format!("close of a silent server reports {:?}", r))),
            }
        }
        2 | 11 => {
            net.server_close(Some(1000));
            if cause == 2 {
                net.eof()
            }
        }
        3 => net.eof(),
        4 => net.with(|n| {
            n.read_err = Some(std::io::ErrorKind::ConnectionReset);
            n.on_close = OnClose::Nothing;
        }),
        5 => {
            net.with(|n| n.write_err = Some(std::io::ErrorKind::BrokenPipe));
            c.emit("fails").args().send();
        }
        6 => net.text("42["),
        7 => net.text("4318446744073709551000[]"),
        8 => {
            net.text("451-[\"x\",{\"_placeholder\":true,\"num\":0}]");
            net.text("42[\"x\",1]");
        }
        9 => net.push(&[0x83, 0]),
        10 => net.text(OPEN),
        _ => {
            net.with(|n| n.on_close = OnClose::Nothing);
            if cause == 14 {
                net.credit(Some([0, 3][choose(2)]));
                c.emit("queued").args().send();
                c.emit("queued").args().send();
            }
            let mut left = 1 + if cause == 12 { 0 } else { choose(3) };
            let fut = Some(Box::pin(c.close()) as Pin<Box<dyn Future<Output = Result<(), Error>>>>);
            if let Some(r) = sched::block_on("closing for a while", Abandon { fut, left: &mut left }) {
                return Err(viol("result", format!("close of a silent server reports {:?}", r)));
            }
            net.credit(None);
        }
    }
    Ok(cause < 2 || cause > 11)
}

/// Whether the session counts as failed, where that is not left open.
fn failed(cause: usize) -> Option<bool> {
    match cause {
        2 | 11 => Some(false),
        3 | 10 => None,
        _ => Some(true),
    }
}

/// Everything a user can do with a client whose connection is over.
fn c27_history(depth: usize) -> Result<u64, Viol> {
    run(&calm(), move |ctx| {
        let held = Held::default();
        let mut c = ctx.connect()?;
        let replies: Arc<Mutex<Vec<AckBuilder>>> = Arc::default();
        let (r, obs, t) = (replies.clone(), ctx.obs.clone(), held.token("handler"));
        c.set_event_callback("x", move |a: &Args, b: Option<AckBuilder>| {
            let _t = &t;
            obs.push(format!("x {}", show_args(a)));
            r.lock().unwrap().extend(b)
        });
        let (obs, t) = (ctx.obs.clone(), held.token("before"));
        let cb = move |a: &Args| {
            let _t = &t;
            obs.push(format!("before {}", show_args(a)))
        };
        c.emit("e").callback(cb).args().send();
        for i in 0..3 {
            ctx.net.text(&event_text("/", Some(i), "x", ""));
        }
        // a binary packet may be under way
        if choose(2) == 1 {
            ctx.net.text("452-[\"x\",{\"_placeholder\":true,\"num\":0}]");
            ctx.net.push(&att(b"first"));
        }
        ctx.settle()?;
        let cause = choose(CAUSES.len());
        let mut used = end_by(ctx, &mut c, cause)?;
        // the task may or may not have noticed when the client is used next
        if choose(2) == 0 {
            sched::settle();
        }
        let over = ctx.task_done();
        if over && !ctx.net.dropped() {
            return Err(viol("transport-left", "the connection is over, the transport is not released"));
        }
        let calls = ctx.obs.get();
        let sent = ctx.net.got().len();
        let mut trace = vec![CAUSES[cause].to_string(), over.to_string()];
        for i in 0..depth {
            step();
            let op = choose(9);
            log_line(|| format!("operation {}", op));
            trace.push(op.to_string());
            let (obs, t) = (ctx.obs.clone(), held.token(&format!("v{}", i)));
            let cb = move |a: &Args| {
                let _t = &t;
                obs.push(format!("late {}", show_args(a)))
            };
            match op {
                0 => c.emit("late").args().arg(&1).unwrap().send(),
                1 => c.namespace_emit("/late", "late").binary(true).callback(cb).args().arg(&[1u8][..]).unwrap().send(),
                2 => drop(c.emit("late").callback(cb).args()),
                3 => c.set_event_callback("x", move |a: &Args, _: Option<AckBuilder>| cb(a)),
                4 => c.clear_event_callback("x"),
                5 => c.set_fallback_callback(move |a: &Args, _: Option<AckBuilder>| cb(a)),
                6 => {
                    let r = replies.lock().unwrap().pop();
                    if let Some(r) = r {
                        r.binary(i % 2 == 0).args().arg(&[1u8][..]).unwrap().send()
                    }
                }
                7 => drop(replies.lock().unwrap().pop()),
                _ => {
                    let r = ctx.close(&mut c);
                    let ok = match &r {
                        Err(Error::AlreadyClosed) => used,
                        Err(Error::Timeout(_)) => false,
                        Ok(()) => !used && failed(cause) != Some(true),
                        Err(_) => !used && failed(cause) != Some(false),
                    };
                    if !ok {
                        return Err(viol(
                            "result",
                            format!("connection over ({}), closing {} reports {:?}", CAUSES[cause], if used { "again" } else { "" }, r),
                        ));
                    }
                    used = true;
                }
            }
            sched::settle();
        }
        if !ctx.task_done() && cause != 11 {
            return Err(viol("task-left", format!("the connection task goes on ({})", CAUSES[cause])));
        }
        if over {
            eq_list("calls", "handlers called once the connection was over", &ctx.obs.get(), &calls)?;
            if ctx.net.got().len() != sent {
                return Err(viol("sent", format!("sent although the connection was over: {:?}", shown(&ctx.net.got()[sent..]))));
            }
        } else {
            // what was not yet over may still have been used, but only as asked
            for l in &ctx.obs.get() {
                if l.starts_with("late") || l.starts_with("before") {
                    return Err(viol("calls", format!("{} was called without being asked for", l)));
                }
            }
        }
        drop(c);
        sched::settle();
        if !ctx.task_done() || !ctx.net.dropped() {
            return Err(viol("task-left", "task or transport outlive the client"));
        }
        if !held.names().is_empty() {
            return Err(viol("held", format!("{:?} outlive the client", held.names())));
        }
        for r in replies.lock().unwrap().drain(..) {
            r.args().arg("very late").unwrap().send()
        }
        sched::settle();
        Ok(dig(&[trace, ctx.obs.get()]))
    })
}

/// The connection ends while threads use it.
fn c27_threads() -> Result<u64, Viol> {
    run(&WorldCfg::default(), move |ctx| {
        let mut c = ctx.connect()?;
        let replies: Arc<Mutex<Vec<AckBuilder>>> = Arc::default();
        let (r, obs) = (replies.clone(), ctx.obs.clone());
        c.set_event_callback("x", move |a: &Args, b: Option<AckBuilder>| {
            obs.push(format!("x {}", show_args(a)));
            r.lock().unwrap().extend(b)
        });
        mcrt::costed_choices(false);
        ctx.net.text(&event_text("/", Some(0), "x", ""));
        ctx.net.text(&event_text("/", Some(1), "x", ""));
        ctx.settle()?;
        mcrt::costed_choices(true);
        let cause = OPEN_ENDED.start + choose(OPEN_ENDED.len());
        let r = replies.clone();
        let t = sched::spawn("replier", false, move || {
            for _ in 0..2 {
                let b = r.lock().unwrap().pop();
                b.unwrap().binary(true).args().arg(&[1u8][..]).unwrap().send()
            }
        });
        let used = end_by(ctx, &mut c, cause)?;
        c.emit("late").args().send();
        c.set_event_callback("y", |_: &Args, _: Option<AckBuilder>| {});
        let r = ctx.close(&mut c);
        let ok = match &r {
            Ok(()) => failed(cause) != Some(true),
            Err(Error::AlreadyClosed) | Err(Error::Timeout(_)) => false,
            Err(_) => failed(cause) != Some(false),
        };
        if !ok || used {
            return Err(viol("result", format!("connection over ({}), close reports {:?}", CAUSES[cause], r)));
        }
        sched::settle();
        if !sched::is_done(t) {
            return Err(viol("stuck", "a thread that replies does not get on"));
        }
        if !ctx.task_done() || !ctx.net.dropped() {
            return Err(viol("task-left", "task or transport outlive the connection"));
        }
        // whatever was sent is whole and each at most once
        let mut sent: Vec<String> = parse_sent(&ctx.net.got())?.iter().map(crate::client_a::packet_show).collect();
        let n = sent.len();
        sent.sort();
        sent.dedup();
        if sent.len() != n {
            return Err(viol("sent", format!("a packet was sent twice: {:?}", sent)));
        }
        match ctx.close(&mut c) {
            Err(Error::AlreadyClosed) => (),
            r => return Err(viol("result", format!("closing again reports {:?}", r))),
        }
        Ok(dig(&[vec![CAUSES[cause].to_string()], ctx.obs.get(), sent]))
    })
}

pub fn c27(tier: Tier) -> Vec<Scenario> {
    let d = tier.pick(4, 5);
    let b = tier.pick(3, 4);
    vec![
        scenario("histories of 2", tier.pick(1, 2), || c27_history(2)),
        scenario(format!("histories of {}", d), 0, move || c27_history(d)),
        scenario("threads", b, c27_threads),
    ]
}
