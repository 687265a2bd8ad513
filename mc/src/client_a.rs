//! Dispatch, acknowledgements and replies of a full client: C09, C10, C11.
use crate::vals::pick;
use std::sync::{Arc, Mutex};

use mcrt::explore::{choose, log_line, step, Scenario, Viol};
use mcrt::sched::{self, WorldCfg};
use socket_io_client::protocol::Args;
use socket_io_client::{AckBuilder, Client, EventCallback};

use crate::driver::{idling, scenario, viol, Tier};
use crate::model::{a, expect, t, Delivery, Fr, Out, Ran, Reg, Session};
use crate::reference::{parse_packet, quote, Kind, Parsed, RefPacket};
use crate::vals::{edges, words};
use crate::world::*;

/// No thread interleavings: the main thread acts only while the connection is quiescent.
pub fn calm() -> WorldCfg {
    WorldCfg {
        preempt: false,
        orders: 3,
        ..WorldCfg::default()
    }
}

/// `calm`, with `select!` preferring its first branch (where that choice is part of the bound).
pub fn still() -> WorldCfg {
    WorldCfg { orders: 1, ..calm() }
}

pub fn ns_prefix(ns: &str) -> String {
    if ns == "/" {
        String::new()
    } else {
        format!("{},", ns)
    }
}

/// The id under which the client asked last for an acknowledgement.
pub fn asked_id(ctx: &Ctx) -> Result<u64, Viol> {
    match parse_sent(&ctx.net.got())?.iter().filter(|p| p.0.kind == Kind::Event).last().and_then(|p| p.0.id) {
        Some(i) => Ok(i),
        None => Err(viol("emission", "an emission with a callback was not sent with an id")),
    }
}

pub fn event_text(ns: &str, id: Option<u64>, ev: &str, args: &str) -> String {
    format!(
        "42{}{}[{}{}]",
        ns_prefix(ns),
        id.map(|i| i.to_string()).unwrap_or_default(),
        quote(ev),
        args
    )
}

/// Feed frames to the model one after the other; `Err(())` when the connection must fail.
pub fn feed(s: &mut Session, r: &mut Reg, fs: &[Fr], lines: &mut Vec<String>) -> Result<(), ()> {
    for f in fs {
        match s.feed(f) {
            Out::Deliver(d) => match r.dispatch(&d) {
                Ran::Lines(l) => lines.extend(l),
                Ran::Error => return Err(()),
            },
            Out::Error => return Err(()),
            _ => {}
        }
    }
    Ok(())
}

/// One message group as one event of the given kind.
pub fn event_frames(kind: usize, ns: &str, ev: &str, tag: u64) -> Vec<Fr> {
    match kind {
        0 => vec![Fr::T(event_text(ns, None, ev, &format!(",{}", tag)))],
        1 => vec![Fr::T(event_text(ns, Some(tag), ev, &format!(",{},\"s\"", tag)))],
        2 => vec![
            Fr::T(format!(
                "451-{}[{},{{\"_placeholder\":true,\"num\":0}},{}]",
                ns_prefix(ns),
                quote(ev),
                tag
            )),
            a(&[tag as u8, 7]),
        ],
        _ => vec![
            Fr::T(format!(
                "452-{}{}[{},{{\"_placeholder\":true,\"num\":1}},[{{\"_placeholder\":true,\"num\":0}}]]",
                ns_prefix(ns),
                tag,
                quote(ev)
            )),
            a(&[tag as u8]),
            a(&[tag as u8, 1, 2]),
        ],
    }
}

pub fn push_frames(ctx: &Ctx, fs: &[Fr]) {
    let mut v = Vec::new();
    for f in fs {
        log_line(|| format!("server sends {}", f.show()));
        v.extend(f.bytes());
    }
    ctx.net.push(&v);
}

// ---------------------------------------------------------------- C09

const NS: [&str; 2] = ["/", "/a"];
const EV: [&str; 2] = ["x", "y"];

#[derive(Clone, Copy, Debug)]
enum Op {
    Set(usize, usize),
    Clear(usize, usize),
    SetFb(usize),
    ClearFb(usize),
    Recv(usize, usize),
}

fn ops() -> Vec<Op> {
    let mut v = Vec::new();
    for n in 0..2 {
        for e in 0..2 {
            v.push(Op::Recv(n, e));
            v.push(Op::Set(n, e));
            v.push(Op::Clear(n, e));
        }
        v.push(Op::SetFb(n));
        v.push(Op::ClearFb(n));
    }
    v
}

pub fn set_handler(c: &mut Client, r: &mut Reg, obs: &Obs, ns: &str, ev: &str, name: &str) {
    let h = handler(obs, name);
    log_line(|| format!("set handler {} for {} {}", name, ns, ev));
    if ns == "/" {
        c.set_event_callback(ev, h)
    } else {
        c.set_namespace_event_callback(ns, ev, h)
    }
    r.ev.insert((ns.into(), ev.into()), name.into());
}
pub fn clear_handler(c: &mut Client, r: &mut Reg, ns: &str, ev: &str) {
    log_line(|| format!("clear handler for {} {}", ns, ev));
    if ns == "/" {
        c.clear_event_callback(ev)
    } else {
        c.clear_namespace_event_callback(ns, ev)
    }
    r.ev.remove(&(ns.to_string(), ev.to_string()));
}
pub fn set_fallback(c: &mut Client, r: &mut Reg, obs: &Obs, ns: &str, name: &str) {
    let h = handler(obs, name);
    log_line(|| format!("set fallback {} for {}", name, ns));
    if ns == "/" {
        c.set_fallback_callback(h)
    } else {
        c.set_namespace_fallback_callback(ns, h)
    }
    r.fb.insert(ns.into(), name.into());
}
pub fn clear_fallback(c: &mut Client, r: &mut Reg, ns: &str) {
    log_line(|| format!("clear fallback for {}", ns));
    if ns == "/" {
        c.clear_fallback_callback()
    } else {
        c.clear_namespace_fallback_callback(ns)
    }
    r.fb.remove(ns);
}

/// One event for every name and namespace, to see the whole registry from outside.
fn probe() -> Vec<Fr> {
    let mut v = Vec::new();
    for ns in ["/", "/a", "/b"] {
        for ev in ["x", "y", "z"] {
            v.push(Fr::T(event_text(ns, None, ev, "")));
        }
    }
    v
}

fn c09_history(depth: usize) -> Result<u64, Viol> {
    run(&still(), move |ctx| {
        let mut c = ctx.connect()?;
        let (mut reg, mut ses) = (Reg::default(), Session::default());
        let mut want = Vec::new();
        let ops = ops();
        let mut tag = 1;
        for i in 0..depth {
            let op = ops[choose(ops.len())];
            step();
            match op {
                Op::Set(n, e) => set_handler(&mut c, &mut reg, &ctx.obs, NS[n], EV[e], &format!("h{}", i)),
                Op::Clear(n, e) => clear_handler(&mut c, &mut reg, NS[n], EV[e]),
                Op::SetFb(n) => set_fallback(&mut c, &mut reg, &ctx.obs, NS[n], &format!("f{}", i)),
                Op::ClearFb(n) => clear_fallback(&mut c, &mut reg, NS[n]),
                Op::Recv(n, e) => {
                    let fs = event_frames(0, NS[n], EV[e], tag);
                    tag += 1;
                    push_frames(ctx, &fs);
                    ctx.settle()?;
                    let _ = feed(&mut ses, &mut reg, &fs, &mut want);
                    eq_list("dispatch", "handlers called", &ctx.obs.get(), &want)?;
                }
            }
        }
        let p = probe();
        push_frames(ctx, &p);
        ctx.settle()?;
        let _ = feed(&mut ses, &mut reg, &p, &mut want);
        eq_list("dispatch", "handlers called", &ctx.obs.get(), &want)?;
        let r = ctx.close(&mut c);
        if let Err(e) = r {
            return Err(viol("result", format!("close reports {} after valid traffic", e)));
        }
        eq_list("dispatch", "handlers called", &ctx.obs.get(), &want)?;
        Ok(dig(&[want]))
    })
}

/// Two handlers, each registered in several places.
fn c09_shared(depth: usize) -> Result<u64, Viol> {
    run(&still(), move |ctx| {
        let mut c = ctx.connect()?;
        let shared: Vec<EventCallback> = ["A", "B"].iter().map(|n| handler(&ctx.obs, n)).collect();
        let places = [("/", Some("x")), ("/", Some("y")), ("/", None), ("/a", Some("x")), ("/a", None)];
        let mut set: [Option<usize>; 5] = [None; 5];
        for _ in 0..depth {
            let (k, what) = (choose(5), choose(3));
            step();
            let (ns, ev) = places[k];
            log_line(|| format!("{} {:?} in {}", ["register A as", "register B as", "clear"][what], ev, ns));
            match (ev, what) {
                (Some(e), 2) => c.clear_namespace_event_callback(ns, e),
                (None, 2) => c.clear_namespace_fallback_callback(ns),
                (Some(e), h) => c.set_namespace_event_callback(ns, e, shared[h].clone()),
                (None, h) => c.set_namespace_fallback_callback(ns, shared[h].clone()),
            }
            set[k] = Some(what).filter(|w| *w < 2);
        }
        drop(shared);
        let mut want = Vec::new();
        let mut calls = [0, 0];
        for (ns, ev, named, fb) in [("/", "x", 0, 2), ("/", "y", 1, 2), ("/", "z", 2, 2), ("/a", "x", 3, 4), ("/a", "y", 4, 4), ("/", "x", 0, 2)] {
            ctx.net.text(&event_text(ns, None, ev, ""));
            if let Some(h) = set[named].or(set[fb]) {
                calls[h] += 1;
                want.push(format!("{}#{} [\"{}\"]", ["A", "B"][h], calls[h], ev));
            }
        }
        ctx.settle()?;
        eq_list("dispatch", "handlers called", &ctx.obs.get(), &want)?;
        match ctx.close(&mut c) {
            Ok(()) => Ok(dig(&[want])),
            Err(e) => Err(viol("result", format!("close reports {} after valid traffic", e))),
        }
    })
}

fn c09_burst(len: usize) -> Result<u64, Viol> {
    run(&calm(), move |ctx| {
        let mut c = ctx.connect()?;
        let (mut reg, mut ses) = (Reg::default(), Session::default());
        set_handler(&mut c, &mut reg, &ctx.obs, "/", "x", "root-x");
        set_handler(&mut c, &mut reg, &ctx.obs, "/a", "x", "a-x");
        set_fallback(&mut c, &mut reg, &ctx.obs, "/a", "a-fb");
        ctx.net.with(|n| {
            n.rsplit = Split::Few;
            n.rpend = true
        });
        let mut fs = Vec::new();
        for i in 0..len {
            let k = choose(7);
            fs.extend(match k {
                0 => event_frames(0, "/", "x", i as u64 + 1),
                1 => event_frames(1, "/a", "x", i as u64 + 1),
                2 => event_frames(2, "/", "x", i as u64 + 1),
                3 => event_frames(3, "/a", "other", i as u64 + 1),
                4 => event_frames(0, "/", "other", i as u64 + 1),
                5 => event_frames(2, "/b", "x", i as u64 + 1),
                _ => vec![t("2"), t("40/a,")],
            });
        }
        push_frames(ctx, &fs);
        ctx.settle()?;
        let mut want = Vec::new();
        let _ = feed(&mut ses, &mut reg, &fs, &mut want);
        eq_list("order", "handlers called", &ctx.obs.get(), &want)?;
        let r = ctx.close(&mut c);
        if let Err(e) = r {
            return Err(viol("result", format!("close reports {} after valid traffic", e)));
        }
        Ok(dig(&[want]))
    })
}

const NAMES: [&str; 18] = [
    "x", "X", "x ", " x", "xy", "", "\"", "\\", "é", "e\u{301}", "\u{0}", "connect", "disconnect", "error", "message", "/a",
    "x,y", "\u{1F600}",
];
const NSS: [&str; 10] = ["/", "/a", "/A", "/a/", "/a/b", "/aa", "/é", "/a?b=c", "/a b", "/1"];

fn escaped(s: &str) -> String {
    let mut o = String::from("\"");
    for u in s.encode_utf16() {
        o.push_str(&format!("\\u{:04x}", u));
    }
    o.push('"');
    o
}

fn c09_names() -> Result<u64, Viol> {
    run(&still(), move |ctx| {
        let mut c = ctx.connect()?;
        let mut reg = Reg::default();
        let names: Vec<&str> = NAMES.to_vec();
        let n1 = NSS[choose(NSS.len())];
        let e1 = names[choose(names.len())];
        let what = choose(4);
        match what {
            0 => set_handler(&mut c, &mut reg, &ctx.obs, n1, e1, "h"),
            1 => {
                set_handler(&mut c, &mut reg, &ctx.obs, n1, e1, "h");
                set_fallback(&mut c, &mut reg, &ctx.obs, n1, "fb");
            }
            2 => {
                // everything set, one cleared
                for n in NSS {
                    for e in &names {
                        set_handler(&mut c, &mut reg, &ctx.obs, n, e, &format!("h {} {}", n, e));
                    }
                }
                clear_handler(&mut c, &mut reg, n1, e1);
            }
            _ => {
                for n in NSS {
                    set_fallback(&mut c, &mut reg, &ctx.obs, n, &format!("f {}", n));
                }
                clear_fallback(&mut c, &mut reg, n1);
                set_handler(&mut c, &mut reg, &ctx.obs, n1, e1, "h");
            }
        }
        let style = choose(3);
        let mut fs = Vec::new();
        for n in NSS {
            for e in &names {
                let q = if style == 0 { quote(e) } else { escaped(e) };
                fs.push(if style == 2 {
                    Fr::T(format!("451-{}[ {} ,{{\"_placeholder\":true,\"num\":0}}]", ns_prefix(n), q))
                } else {
                    Fr::T(format!("42{}[{}]", ns_prefix(n), q))
                });
                if style == 2 {
                    fs.push(a(b"q"));
                }
            }
        }
        push_frames(ctx, &fs);
        ctx.settle()?;
        let e = expect(&fs, &reg);
        eq_list("exact-match", "handlers called", &ctx.obs.get(), &e.calls)?;
        Ok(dig(&[e.calls]))
    })
}

fn c09_lexical() -> Result<u64, Viol> {
    let cfg = WorldCfg {
        max_steps: 1_000_000,
        ..calm()
    };
    run(&cfg, move |ctx| {
        let mut c = ctx.connect()?;
        let mut reg = Reg::default();
        let words = words();
        // names in the root and a namespace, or the namespaces themselves
        let of_ns = choose(2) == 1;
        let pairs: Vec<(String, String)> = if of_ns {
            words.iter().filter(|w| !w.contains(&[',', '\n', '\r'][..])).map(|w| (format!("/{}", w), "x".to_string())).collect()
        } else {
            words.iter().flat_map(|w| [("/".to_string(), w.to_string()), ("/a".to_string(), w.to_string())]).collect()
        };
        let what = choose(6);
        let fallback = choose(2) == 1;
        let style = choose(2);
        step();
        for (i, (n, e)) in pairs.iter().enumerate() {
            if what == 1 || what == 4 || what == 2 + i % 2 {
                set_handler(&mut c, &mut reg, &ctx.obs, n, e, &format!("h{}", i));
            }
            if fallback && (of_ns || i < 2) && (what != 5 || i % 3 != 0) {
                set_fallback(&mut c, &mut reg, &ctx.obs, n, &format!("f{}", i));
            }
        }
        if what >= 4 {
            for (i, (n, e)) in pairs.iter().enumerate() {
                if i % 2 == 0 {
                    clear_handler(&mut c, &mut reg, n, e);
                } else if i % 5 == 0 {
                    clear_fallback(&mut c, &mut reg, n);
                }
            }
        }
        let mut want = Vec::new();
        let mut ses = Session::default();
        for ps in pairs.chunks(200) {
            let fs: Vec<Fr> = ps
                .iter()
                .map(|(n, e)| Fr::T(format!("42{}[{},{}]", ns_prefix(n), if style == 0 { quote(e) } else { escaped(e) }, 1)))
                .collect();
            push_frames(ctx, &fs);
            ctx.settle()?;
            let _ = feed(&mut ses, &mut reg, &fs, &mut want);
        }
        eq_list("exact-match", "handlers called", &ctx.obs.get(), &want)?;
        match ctx.close(&mut c) {
            Ok(()) => Ok(dig(&[want])),
            Err(e) => Err(viol("result", format!("close reports {} after valid traffic", e))),
        }
    })
}

/// Emissions whose settings are changed while they are built: the last of each kind counts.
fn c10_settings(depth: usize) -> Result<u64, Viol> {
    run(&calm(), move |ctx| {
        let mut c = ctx.connect()?;
        let n = 1 + choose(depth);
        let mut ids = Vec::new();
        for round in 0..2 {
            let mut b = c.emit("e");
            let (mut binary, mut last) = (false, None);
            for i in 0..n {
                match choose(4) {
                    0 => {
                        b = b.binary(true);
                        binary = true
                    }
                    1 => {
                        b = b.binary(false);
                        binary = false
                    }
                    k => {
                        let name = format!("cb{}-{}-{}", round, i, k);
                        b = b.callback(ack_handler(&ctx.obs, &name));
                        last = Some(name);
                    }
                }
            }
            let mut b = b.args();
            b.arg_ref(&[1u8, 2][..]).unwrap();
            b.send();
            ctx.settle()?;
            let ps = parse_sent(&ctx.net.take())?;
            if ps.len() != 1 || ps[0].1.len() != binary as usize || ps[0].0.id.is_some() != last.is_some() {
                let what = format!("an emission with binary {} and callback {:?} went out as {:?}", binary, last, ps);
                return Err(viol("settings", what));
            }
            if let Some(id) = ps[0].0.id {
                if ids.contains(&id) {
                    return Err(viol("settings", format!("id {} is used twice", id)));
                }
                ids.push(id);
                ctx.net.push(&text(&format!("43{}[{}]", id, round)));
                ctx.settle()?;
                let want = vec![format!("{} [{}]", last.as_ref().unwrap(), round)];
                eq_list("settings", "callbacks run", &ctx.obs.take(), &want)?;
            }
        }
        match ctx.close(&mut c) {
            Ok(()) => Ok(ids.len() as u64),
            Err(e) => Err(viol("result", format!("close reports {} after valid traffic", e))),
        }
    })
}

/// Acknowledgements with every kind of id that no emission uses, while others are outstanding.
fn c10_ids() -> Result<u64, Viol> {
    let ids = crate::vals::edges();
    let outstanding = [0usize, 1, 4, 20][choose(4)];
    let form = choose(4);
    let chunk: Vec<u64> = ids.chunks(16).nth(choose((ids.len() + 15) / 16)).unwrap().to_vec();
    let mut d = 0;
    for id in chunk {
        let cfg = WorldCfg {
            max_steps: 100_000,
            ..calm()
        };
        d ^= run(&cfg, move |ctx| {
            step();
            let mut c = ctx.connect()?;
            for i in 0..outstanding {
                let name = format!("cb{}", i);
                emit(&mut c, &ctx.obs, "/", "e", Some(&name), false, None);
            }
            ctx.settle()?;
            let ps = parse_sent(&ctx.net.take())?;
            let used: Vec<u64> = ps.iter().filter_map(|p| p.0.id).collect();
            if used.len() != outstanding {
                return Err(viol("wire", format!("{} emissions went out with the ids {:?}", outstanding, used)));
            }
            let m = match form {
                0 => vec![t(&format!("43{}[1]", id))],
                1 => vec![t(&format!("43/n,{}[1]", id))],
                2 => vec![t(&format!("461-{}[{{\"_placeholder\":true,\"num\":0}}]", id)), a(&[1])],
                _ => vec![t(&format!("43{}[]", id))],
            };
            let key = format!("unsolicited:{}:{}:{}", outstanding, form, id);
            push_frames(ctx, &m);
            ctx.settle()?;
            let want: Vec<String> = match used.iter().position(|u| *u == id) {
                Some(i) if form == 0 => vec![format!("cb{} [1]", i)],
                Some(i) if form == 2 => vec![format!("cb{} [[1]]", i)],
                Some(i) if form == 3 => vec![format!("cb{} []", i)],
                _ => Vec::new(),
            };
            // an answer to another namespace than the one asked may or may not be taken
            if form == 1 && used.contains(&id) {
                return Ok(0);
            }
            eq_list(&key, "callbacks run", &ctx.obs.get(), &want)?;
            let line = format!("ack {} with {} outstanding", id, outstanding);
            let r = ctx.close(&mut c).map_err(|e| e.to_string());
            if r.is_ok() == want.is_empty() {
                return Err(viol(key, format!("{}: close reports {:?}", line, r)));
            }
            Ok(dig(&[vec![line]]))
        })?;
    }
    Ok(d)
}

/// Packets that repeat earlier ones verbatim, ids and attachments included, are packets of their own.
fn c09_repeats(depth: usize) -> Result<u64, Viol> {
    run(&calm(), move |ctx| {
        let mut c = ctx.connect()?;
        let (mut reg, mut ses) = (Reg::default(), Session::default());
        set_handler(&mut c, &mut reg, &ctx.obs, "/", "x", "root-x");
        set_fallback(&mut c, &mut reg, &ctx.obs, "/a", "a-fb");
        let mut fs = Vec::new();
        for _ in 0..depth {
            match choose(6) {
                k @ 0..=3 => fs.extend(event_frames(k, "/", "x", 7)),
                4 => fs.extend(event_frames(1, "/a", "x", 7)),
                _ => fs.push(t("2")),
            }
        }
        push_frames(ctx, &fs);
        ctx.settle()?;
        let mut want = Vec::new();
        let _ = feed(&mut ses, &mut reg, &fs, &mut want);
        eq_list("repeated", "handlers called", &ctx.obs.get(), &want)?;
        match ctx.close(&mut c) {
            Ok(()) => Ok(dig(&[want])),
            Err(e) => Err(viol("result", format!("close reports {} after valid traffic", e))),
        }
    })
}

/// Events of every size, in text and as attachments.
fn c09_large(sizes: &'static [usize]) -> Result<u64, Viol> {
    let cfg = WorldCfg {
        max_steps: 1_000_000,
        ..calm()
    };
    run(&cfg, move |ctx| {
        let mut c = ctx.connect()?;
        let size = sizes[choose(sizes.len())];
        let binary = choose(2) == 1;
        step();
        let got: Arc<Mutex<Vec<(usize, bool)>>> = Arc::default();
        let g = got.clone();
        c.set_event_callback("x", move |args: &Args, _: Option<AckBuilder>| {
            let arg = args.get(1);
            let (len, same) = if binary {
                let v: Vec<u8> = arg.and_then(|a| a.deserialize().ok()).unwrap_or_default();
                (v.len(), v.iter().enumerate().all(|(i, b)| *b == (i / 3) as u8))
            } else {
                let v: String = arg.and_then(|a| a.deserialize().ok()).unwrap_or_default();
                (v.len(), v.bytes().enumerate().all(|(i, b)| b == b'a' + (i / 3 % 26) as u8))
            };
            g.lock().unwrap().push((len, same));
        });
        for n in [size, 1] {
            if binary {
                let v: Vec<u8> = (0..n).map(|i| (i / 3) as u8).collect();
                ctx.net.push(&text("451-[\"x\",{\"_placeholder\":true,\"num\":0}]"));
                ctx.net.push(&a(&v).bytes());
            } else {
                let v: String = (0..n).map(|i| (b'a' + (i / 3 % 26) as u8) as char).collect();
                ctx.net.push(&text(&event_text("/", None, "x", &format!(",\"{}\"", v))));
            }
        }
        ctx.settle()?;
        let got = got.lock().unwrap().clone();
        if got != [(size, true), (1, true)] {
            let what = format!("events of {} and 1 bytes were delivered as (length, intact) {:?}", size, got);
            return Err(viol(format!("large:{}", size), what));
        }
        match ctx.close(&mut c) {
            Ok(()) => Ok(size as u64),
            Err(e) => Err(viol("result", format!("close reports {} after valid traffic", e))),
        }
    })
}

/// Many handlers in many namespaces, some replaced, some cleared; an event for each, in two orders.
fn c09_volume(n: usize) -> Result<u64, Viol> {
    let cfg = WorldCfg {
        max_steps: 10_000 + 300 * n as u64,
        ..calm()
    };
    run(&cfg, move |ctx| {
        let mut c = ctx.connect()?;
        let spaces = [1usize, 3, 100][choose(3)];
        let order = choose(2);
        step();
        let ns: Vec<String> = (0..spaces).map(|k| if k == 0 { "/".into() } else { format!("/{}", k) }).collect();
        let calls: Arc<Mutex<Vec<(usize, String, u64)>>> = Arc::default();
        let h = |what: usize, i: usize| {
            let calls = calls.clone();
            move |args: &Args, _: Option<AckBuilder>| {
                let ev: String = args.get(0).and_then(|a| a.deserialize().ok()).unwrap_or_default();
                let tag: u64 = args.get(1).and_then(|a| a.deserialize().ok()).unwrap_or(u64::MAX);
                calls.lock().unwrap().push((what * n + i, ev, tag));
            }
        };
        for i in 0..n {
            c.set_namespace_event_callback(&ns[i % spaces], &format!("e{}", i), h(0, i));
        }
        for i in (0..n).step_by(3) {
            c.clear_namespace_event_callback(&ns[i % spaces], &format!("e{}", i));
        }
        for i in (0..n).step_by(5) {
            c.set_namespace_event_callback(&ns[i % spaces], &format!("e{}", i), h(1, i));
        }
        let back = spaces / 2;
        c.set_namespace_fallback_callback(&ns[back], h(2, 0));
        let mut want = Vec::new();
        for k in 0..2 * n {
            let i = if order == 0 { k % n } else { (n - 1) - k / 2 };
            // every seventh goes to a namespace where the event has no handler
            let stray = k % 7 == 6;
            let s = if stray { "/none" } else { &ns[i % spaces] };
            ctx.net.push(&text(&event_text(s, None, &format!("e{}", i), &format!(",{}", k))));
            let who = if stray {
                None
            } else if i % 5 == 0 {
                Some(n + i)
            } else if i % 3 != 0 {
                Some(i)
            } else if i % spaces == back {
                Some(2 * n)
            } else {
                None
            };
            if let Some(w) = who {
                want.push((w, format!("e{}", i), k as u64));
            }
            if k % 512 == 511 {
                ctx.settle()?;
            }
        }
        ctx.settle()?;
        let got = calls.lock().unwrap().clone();
        if let Some(k) = (0..want.len().max(got.len())).find(|k| want.get(*k) != got.get(*k)) {
            return Err(viol("dispatch", format!("call {} is {:?} instead of {:?}", k, got.get(k), want.get(k))));
        }
        match ctx.close(&mut c) {
            Ok(()) => Ok(n as u64),
            Err(e) => Err(viol("result", format!("close reports {} after valid traffic", e))),
        }
    })
}

pub fn c09(tier: Tier) -> Vec<Scenario> {
    let d = tier.pick(5, 6);
    let s = tier.pick(3, 4);
    let v = tier.pick(70_000, 140_000);
    let b = tier.pick(3, 4);
    let r = tier.pick(4, 6);
    let l: &'static [usize] = match tier {
        Tier::Quick => &[0, 125, 126, 65_535, 65_536, 1 << 20, (1 << 20) + 1, 3 << 20],
        Tier::Thorough => &[0, 125, 126, 65_535, 65_536, 1 << 20, (1 << 20) + 1, 3 << 20, 12 << 20],
    };
    vec![
        scenario("names", 0, c09_names),
        scenario("names of every form", 0, c09_lexical),
        scenario(format!("{} packets that may repeat", r), 0, move || c09_repeats(r)),
        scenario("events of every size", 0, move || c09_large(l)),
        scenario(format!("{} handlers", v), 0, move || c09_volume(v)),
        scenario(format!("burst of {}", b), 1, move || c09_burst(b)),
        scenario("burst of 2, two deviations", 2, move || c09_burst(2)),
        scenario(format!("{} changes with handlers registered in several places", s), 0, move || c09_shared(s)),
        scenario(format!("histories of {}", d), 0, move || c09_history(d)),
        idling(scenario(format!("histories of {}", d - 1), 0, move || c09_history(d - 1))),
    ]
}

// ---------------------------------------------------------------- C10

/// A packet the client sent, as the reference parser reads it.
pub fn parse_sent(ms: &[Msg]) -> Result<Vec<(RefPacket, Vec<Vec<u8>>)>, Viol> {
    let mut out = Vec::new();
    let mut i = 0;
    while i < ms.len() {
        match &ms[i] {
            Msg::Text(s) if s == "3" => {
                i += 1;
                continue;
            }
            Msg::Text(s) if s.starts_with('4') => {
                let p = match parse_packet(&s[1..]) {
                    Parsed::Ok(p) => p,
                    _ => return Err(viol("wire", format!("the client sent {:?}", s))),
                };
                i += 1;
                let mut atts = Vec::new();
                for _ in 0..p.attachments {
                    match ms.get(i) {
                        Some(Msg::Bin(b)) if b.first() == Some(&4) => atts.push(b[1..].to_vec()),
                        o => return Err(viol("wire", format!("attachment of {:?} is {:?}", s, o))),
                    }
                    i += 1;
                }
                out.push((p, atts));
            }
            Msg::Close(_) | Msg::Pong(_) => i += 1,
            m => return Err(viol("wire", format!("the client sent {}", m.show()))),
        }
    }
    Ok(out)
}

pub struct Sent {
    pub ns: String,
    pub id: u64,
    pub answered: bool,
}

/// Emit an event; returns nothing, the wire tells.
pub fn emit(c: &mut Client, obs: &Obs, ns: &str, ev: &str, cb: Option<&str>, binary: bool, arg: Option<&str>) {
    let mut b = if ns == "/" { c.emit(ev) } else { c.namespace_emit(ns, ev) };
    b = b.binary(binary);
    if let Some(n) = cb {
        b = b.callback(ack_handler(obs, n));
    }
    let mut b = b.args();
    if let Some(s) = arg {
        b = b.arg(s).unwrap();
    }
    if binary {
        b = b.arg(&[1u8, 2][..]).unwrap();
    }
    b.send();
}

fn c10_history(depth: usize, ops: bool) -> Result<u64, Viol> {
    run(&calm(), move |ctx| {
        let mut c = ctx.connect()?;
        let (mut reg, mut ses) = (Reg::default(), Session::default());
        let mut want: Vec<String> = Vec::new();
        let mut sent: Vec<Sent> = Vec::new();
        let mut failed = false;
        for i in 0..depth {
            step();
            // 4 emissions, 3 abandoned emissions, changes of the handlers, then answers
            let regs = if ops { 4 } else { 0 };
            let kinds = 7 + 4 * sent.len() + 1 + regs;
            let k = choose(kinds);
            if k >= kinds - regs {
                // Handlers come and go without touching what is outstanding.
                match k + regs - kinds {
                    0 => set_fallback(&mut c, &mut reg, &ctx.obs, "/a", "fb"),
                    1 => clear_fallback(&mut c, &mut reg, "/a"),
                    2 => set_handler(&mut c, &mut reg, &ctx.obs, "/a", "x", "h"),
                    _ => clear_handler(&mut c, &mut reg, "/a", "x"),
                }
                continue;
            }
            if k < 7 {
                let name = format!("cb{}", i);
                match k {
                    0 => emit(&mut c, &ctx.obs, "/", "e", Some(&name), false, Some("v")),
                    1 => emit(&mut c, &ctx.obs, "/a", "e", Some(&name), true, None),
                    2 => emit(&mut c, &ctx.obs, "/", "e", Some(&name), false, None),
                    3 => emit(&mut c, &ctx.obs, "/a", "e", None, false, Some("v")),
                    4 => {
                        // built, never sent
                        let b = c.emit("gone").callback(ack_handler(&ctx.obs, &name)).args();
                        drop(b);
                    }
                    5 => {
                        let b = c.namespace_emit("/a", "gone").callback(ack_handler(&ctx.obs, &name));
                        drop(b);
                    }
                    _ => {
                        // an argument that cannot be serialized, dropped by the caller
                        let b = c.emit("gone").callback(ack_handler(&ctx.obs, &name)).args();
                        let bad: std::collections::BTreeMap<Vec<u8>, u8> = [(vec![1u8], 1u8)].into_iter().collect();
                        if b.arg(&bad).is_ok() {
                            return Err(viol("arg", "a map with array keys was accepted"));
                        }
                    }
                }
                ctx.settle()?;
                let ps = parse_sent(&ctx.net.take())?;
                if k >= 4 {
                    if !ps.is_empty() {
                        return Err(viol("unsent", format!("an emission that was not sent left the client: {:?}", ps)));
                    }
                    continue;
                }
                if ps.len() != 1 || ps[0].0.kind != Kind::Event || ps[0].0.ns != ["/", "/a", "/", "/a"][k] {
                    return Err(viol("wire", format!("emission {} went out as {:?}", k, ps)));
                }
                let id = ps[0].0.id;
                if (k == 3) != id.is_none() {
                    return Err(viol("id", format!("emission with{} callback has id {:?}", if k == 3 { "out" } else { "" }, id)));
                }
                if let Some(id) = id {
                    if sent.iter().any(|s| s.id == id) {
                        return Err(viol("id", format!("id {} is used twice", id)));
                    }
                    reg.acks.insert((ps[0].0.ns.clone(), id), name);
                    sent.push(Sent {
                        ns: ps[0].0.ns.clone(),
                        id,
                        answered: false,
                    });
                }
                continue;
            }
            let k = k - 7;
            let (ns, id, shape) = if k == 4 * sent.len() {
                // no emission on the wire carries this id
                let id = (0..).find(|i| !sent.iter().any(|s| s.id == *i)).unwrap();
                ("/".to_string(), id, 0)
            } else {
                let s = &mut sent[k / 4];
                match k % 4 {
                    3 => (if s.ns == "/" { "/a".to_string() } else { "/".to_string() }, s.id, 0),
                    sh => {
                        s.answered = true;
                        (s.ns.clone(), s.id, sh)
                    }
                }
            };
            let fs = match shape {
                0 => vec![Fr::T(format!("43{}{}[{},\"r\"]", ns_prefix(&ns), id, i))],
                1 => vec![Fr::T(format!("43{}{}{}", ns_prefix(&ns), id, if i % 2 == 0 { "" } else { "[]" }))],
                _ => vec![
                    Fr::T(format!(
                        "462-{}{}[{{\"_placeholder\":true,\"num\":1}},{{\"_placeholder\":true,\"num\":0}}]",
                        ns_prefix(&ns),
                        id
                    )),
                    a(&[i as u8]),
                    a(&[9, 9]),
                ],
            };
            push_frames(ctx, &fs);
            ctx.settle()?;
            let r = feed(&mut ses, &mut reg, &fs, &mut want);
            eq_list("ack", "callbacks run", &ctx.obs.get(), &want)?;
            if r.is_err() {
                failed = true;
                break;
            }
        }
        if failed {
            // The connection is over: nothing that follows may run anything.
            for s in &sent {
                ctx.net.text(&format!("43{}{}[0]", ns_prefix(&s.ns), s.id));
            }
            ctx.settle()?;
        }
        let r = ctx.close(&mut c);
        eq_list("ack", "callbacks run", &ctx.obs.get(), &want)?;
        match (failed, r) {
            (true, Ok(())) => Err(viol("unmatched", "an acknowledgement that matches nothing was not reported")),
            (false, Err(e)) => Err(viol("result", format!("close reports {} after valid acknowledgements", e))),
            _ => Ok(dig(&[want, vec![failed.to_string()]])),
        }
    })
}

/// Several emissions answered in one burst, in every order, with read splits.
fn c10_burst(n: usize) -> Result<u64, Viol> {
    run(&calm(), move |ctx| {
        let mut c = ctx.connect()?;
        let mut reg = Reg::default();
        for i in 0..n {
            let ns = ["/", "/a"][choose(2)];
            let bin = choose(2) == 1;
            emit(&mut c, &ctx.obs, ns, "e", Some(&format!("cb{}", i)), bin, None);
        }
        ctx.settle()?;
        let ps = parse_sent(&ctx.net.take())?;
        if ps.len() != n {
            return Err(viol("wire", format!("{} emissions went out as {:?}", n, ps)));
        }
        let mut left: Vec<(String, u64)> = Vec::new();
        for (i, p) in ps.iter().enumerate() {
            let id = match p.0.id {
                Some(i) => i,
                None => return Err(viol("id", "no id on an emission with callback")),
            };
            if left.iter().any(|l| l.1 == id) {
                return Err(viol("id", format!("id {} is used twice", id)));
            }
            reg.acks.insert((p.0.ns.clone(), id), format!("cb{}", i));
            left.push((p.0.ns.clone(), id));
        }
        ctx.net.with(|n| {
            n.rsplit = Split::Few;
            n.rpend = true
        });
        let mut fs = Vec::new();
        while !left.is_empty() {
            let (ns, id) = left.remove(choose(left.len()));
            match choose(3) {
                0 => fs.push(Fr::T(format!("43{}{}", ns_prefix(&ns), id))),
                1 => fs.push(Fr::T(format!("43{}{}[{}]", ns_prefix(&ns), id, id))),
                _ => {
                    fs.push(Fr::T(format!(
                        "461-{}{}[{{\"_placeholder\":true,\"num\":0}}]",
                        ns_prefix(&ns),
                        id
                    )));
                    fs.push(t("2"));
                    fs.push(a(&[id as u8]));
                }
            }
        }
        push_frames(ctx, &fs);
        ctx.settle()?;
        let e = expect(&fs, &reg);
        eq_list("ack", "callbacks run", &ctx.obs.get(), &e.calls)?;
        match ctx.close(&mut c) {
            Ok(()) => Ok(dig(&[e.calls])),
            Err(e) => Err(viol("result", format!("close reports {} after valid acknowledgements", e))),
        }
    })
}

/// Many emissions outstanding at once, answered first to last, last to first, or from the middle.
fn c10_volume(n: usize) -> Result<u64, Viol> {
    let cfg = WorldCfg {
        max_steps: 10_000 + 100 * n as u64,
        ..calm()
    };
    run(&cfg, move |ctx| {
        let mut c = ctx.connect()?;
        let ran: Arc<Mutex<Vec<u32>>> = Arc::new(Mutex::new(vec![0; n]));
        let two = choose(2) == 1;
        let ns = |i: usize| if two && i % 3 == 1 { "/a" } else { "/" };
        step();
        for i in 0..n {
            let (r, w) = (ran.clone(), i as u32);
            let cb = move |args: &Args| {
                // the argument says which emission is answered
                let got: u32 = args.get(0).and_then(|a| a.deserialize().ok()).unwrap_or(u32::MAX);
                let mut r = r.lock().unwrap();
                r[w as usize] += if got == w { 1 } else { 1000 };
            };
            let b = if ns(i) == "/" { c.emit("e") } else { c.namespace_emit(ns(i), "e") };
            b.callback(cb).args().send();
            if i % 512 == 511 {
                ctx.settle()?;
            }
        }
        ctx.settle()?;
        let ps = parse_sent(&ctx.net.take())?;
        if ps.len() != n {
            return Err(viol("wire", format!("{} emissions went out as {} packets", n, ps.len())));
        }
        let mut ids = std::collections::HashSet::new();
        for p in &ps {
            match p.0.id {
                Some(i) if ids.insert(i) => {}
                o => return Err(viol("id", format!("id {:?} is used twice or missing", o))),
            }
        }
        let order: Vec<usize> = match choose(3) {
            0 => (0..n).collect(),
            1 => (0..n).rev().collect(),
            _ => (0..n).map(|i| (i + n / 2) % n).collect(),
        };
        for (k, i) in order.into_iter().enumerate() {
            ctx.net.push(&text(&format!("43{}{}[{}]", ns_prefix(ns(i)), ps[i].0.id.unwrap(), i)));
            if k % 512 == 511 {
                ctx.settle()?;
            }
        }
        ctx.settle()?;
        let r = ran.lock().unwrap().clone();
        if let Some(i) = (0..n).find(|i| r[*i] != 1) {
            return Err(viol("ack", format!("callback {} of {} ran {} times, or with another answer", i, n, r[i])));
        }
        match ctx.close(&mut c) {
            Ok(()) => Ok(n as u64),
            Err(e) => Err(viol("result", format!("close reports {} after valid acknowledgements", e))),
        }
    })
}

/// An answer that matches nothing while many emissions are outstanding: it runs none of them.
fn c10_unmatched(sizes: &'static [usize]) -> Result<u64, Viol> {
    let n = pick(sizes);
    let cfg = WorldCfg {
        max_steps: 10_000 + 100 * n as u64,
        ..calm()
    };
    run(&cfg, move |ctx| {
        let mut c = ctx.connect()?;
        let ran: Arc<Mutex<Vec<u32>>> = Arc::new(Mutex::new(vec![0; n]));
        let two = choose(2) == 1;
        let ns = |i: usize| if two && i % 3 == 1 { "/a" } else { "/" };
        for i in 0..n {
            let r = ran.clone();
            let b = if ns(i) == "/" { c.emit("e") } else { c.namespace_emit(ns(i), "e") };
            b.callback(move |_: &Args| r.lock().unwrap()[i] += 1).args().send();
            if i % 512 == 511 {
                ctx.settle()?;
            }
        }
        ctx.settle()?;
        let ps = parse_sent(&ctx.net.take())?;
        let ids: Vec<u64> = ps.iter().filter_map(|p| p.0.id).collect();
        if ids.len() != n {
            return Err(viol("wire", format!("{} emissions went out with {} ids", n, ids.len())));
        }
        // Some have been answered already
        let answered = match choose(3) {
            0 => 0,
            1 => n / 2,
            _ => n.saturating_sub(1),
        };
        for (k, i) in (0..answered).enumerate() {
            ctx.net.push(&text(&format!("43{}{}[]", ns_prefix(ns(i)), ids[i])));
            if k % 512 == 511 {
                ctx.settle()?;
            }
        }
        ctx.settle()?;
        let want: Vec<u32> = (0..n).map(|i| (i < answered) as u32).collect();
        if *ran.lock().unwrap() != want {
            return Err(viol("ack", format!("{} of {} answered, and others ran", answered, n)));
        }
        let last = n - 1;
        let (space, id) = match choose(9) {
            0 => (ns(last), ids.iter().max().unwrap() + 1),
            1 => (ns(last), u64::MAX),
            2 => (ns(0), ids[0].wrapping_add(1 << 32)),
            3 => (ns(last), ids[last].wrapping_add(1 << 32)),
            4 => (ns(last), ids[last].wrapping_add(1 << 63)),
            5 => (if ns(last) == "/" { "/a" } else { "/" }, ids[last]),
            6 => ("/b", ids[last]),
            7 if answered > 0 => (ns(0), ids[0]),
            8 if answered > 0 => (ns(answered - 1), ids[answered - 1]),
            _ => return Ok(0),
        };
        let args = pick(&["", "[]", "[1]"]);
        ctx.net.push(&text(&format!("43{}{}{}", ns_prefix(space), id, args)));
        ctx.settle()?;
        // The connection is over, and with it everything outstanding
        ctx.net.push(&text(&format!("43{}{}[]", ns_prefix(ns(last)), ids[last])));
        ctx.settle()?;
        let r = ctx.close(&mut c);
        if let Some(i) = (0..n).find(|i| ran.lock().unwrap()[*i] != want[*i]) {
            return Err(viol(
                "unmatched",
                format!("callback {} of {} ran {} times, the answer to {:?} {} is not for it", i, n, ran.lock().unwrap()[i], space, id),
            ));
        }
        match r {
            Ok(()) => Err(viol("unmatched", "an acknowledgement that matches nothing was not reported")),
            Err(_) => Ok(n as u64),
        }
    })
}

/// Emissions to namespaces of every form, each answered once.
fn c10_words() -> Result<u64, Viol> {
    let cfg = WorldCfg {
        max_steps: 1_000_000,
        ..calm()
    };
    run(&cfg, move |ctx| {
        let mut c = ctx.connect()?;
        let nss: Vec<String> = namespace_words();
        let reverse = choose(2) == 1;
        let binary = choose(2) == 1;
        step();
        let mut want = Vec::new();
        for (i, n) in nss.iter().enumerate() {
            c.namespace_emit(n, "e").callback(ack_handler(&ctx.obs, &format!("cb{}", i))).args().send();
        }
        ctx.settle()?;
        let ps = parse_sent(&ctx.net.take())?;
        if ps.len() != nss.len() {
            return Err(viol("wire", format!("{} emissions went out as {} packets", nss.len(), ps.len())));
        }
        let mut order: Vec<usize> = (0..nss.len()).collect();
        if reverse {
            order.reverse();
        }
        for (k, i) in order.into_iter().enumerate() {
            if ps[i].0.ns != nss[i] {
                return Err(viol("wire", format!("emission to {:?} went to {:?}", nss[i], ps[i].0.ns)));
            }
            let id = ps[i].0.id.unwrap_or(0);
            if binary {
                let h = format!("461-{}{}[{},{{\"_placeholder\":true,\"num\":0}}]", ns_prefix(&nss[i]), id, i);
                push_frames(ctx, &[Fr::T(h), a(&[1])]);
                want.push(format!("cb{} [{},[1]]", i, i));
            } else {
                ctx.net.push(&text(&format!("43{}{}[{}]", ns_prefix(&nss[i]), id, i)));
                want.push(format!("cb{} [{}]", i, i));
            }
            if k % 100 == 99 {
                ctx.settle()?;
            }
        }
        ctx.settle()?;
        eq_list("ack", "callbacks run", &ctx.obs.get(), &want)?;
        match ctx.close(&mut c) {
            Ok(()) => Ok(dig(&[want])),
            Err(e) => Err(viol("result", format!("close reports {} after valid acknowledgements", e))),
        }
    })
}

/// Namespaces of every form.
fn namespace_words() -> Vec<String> {
    let ok = |w: &&&str| !w.is_empty() && !w.contains(&[',', '\n', '\r'][..]);
    std::iter::once("/".to_string()).chain(words().iter().filter(ok).map(|w| format!("/{}", w))).collect()
}

/// Events of every form of namespace and every id: what is answered goes out under the same.
fn c11_words() -> Result<u64, Viol> {
    let cfg = WorldCfg {
        max_steps: 1_000_000,
        ..calm()
    };
    run(&cfg, move |ctx| {
        let mut c = ctx.connect()?;
        let ids = edges();
        let cases: Vec<(String, u64)> = if choose(2) == 0 {
            ids.iter().flat_map(|i| [("/".to_string(), *i), ("/a".to_string(), *i)]).collect()
        } else {
            namespace_words().into_iter().enumerate().map(|(k, n)| (n, ids[k % ids.len()])).collect()
        };
        let shape = choose(SHAPES);
        let later = choose(2) == 1;
        step();
        let store: Store = Arc::default();
        let set: std::collections::BTreeSet<String> = cases.iter().map(|c| c.0.clone()).collect();
        for n in &set {
            if later {
                c.set_namespace_event_callback(n, "x", storing(&ctx.obs, &store));
            } else {
                let o = ctx.obs.clone();
                c.set_namespace_event_callback(n, "x", move |args: &Args, ack: Option<AckBuilder>| {
                    o.push(format!("{}{}", show_args(args), if ack.is_some() { " ack" } else { "" }));
                    if let Some(a) = ack {
                        reply(a, shape, 5)
                    }
                });
            }
        }
        for (k, (n, i)) in cases.iter().enumerate() {
            ctx.net.push(&text(&event_text(n, Some(*i), "x", "")));
            if k % 100 == 99 {
                ctx.settle()?;
            }
        }
        ctx.settle()?;
        if later {
            let hs: Vec<AckBuilder> = store.lock().unwrap().iter_mut().map(|h| h.take().unwrap()).collect();
            for h in hs {
                reply(h, shape, 5);
            }
            ctx.settle()?;
        }
        let want: Vec<String> = cases.iter().map(|_| "[\"x\"] ack".to_string()).collect();
        eq_list("handle", "handler calls (ack: with reply handle)", &ctx.obs.get(), &want)?;
        let got: Vec<String> = parse_sent(&ctx.net.take())?.iter().map(packet_show).collect();
        let want: Vec<String> = cases.iter().map(|(n, i)| reply_show(n, *i, shape, 5)).collect();
        eq_list("reply", "answers sent", &got, &want)?;
        match ctx.close(&mut c) {
            Ok(()) => Ok(dig(&[want])),
            Err(e) => Err(viol("result", format!("close reports {} after valid traffic", e))),
        }
    })
}

pub fn c10(tier: Tier) -> Vec<Scenario> {
    let d = tier.pick(5, 6);
    let n = tier.pick(2, 3);
    let v = tier.pick(70_000, 140_000);
    let u = tier.pick(
        &[1usize, 2, 3, 8, 9, 16, 17, 33, 65, 100, 129, 257, 1_025, 5_000][..],
        &[1, 2, 3, 4, 5, 7, 8, 9, 10, 15, 16, 17, 31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257, 513, 1_000, 1_025, 2_049, 5_000, 20_000],
    );
    vec![
        scenario(format!("histories of {}", d - 1), 0, move || c10_history(d - 1, true)),
        idling(scenario(format!("histories of {}", d - 1), 0, move || c10_history(d - 1, true))),
        scenario(format!("{} outstanding at once", v), 0, move || c10_volume(v)),
        scenario("an answer to nothing among many outstanding", 0, move || c10_unmatched(u)),
        scenario("namespaces of every form", 0, c10_words),
        scenario("ids of every size", 0, c10_ids),
        scenario("emissions whose settings change", 0, move || c10_settings(tier.pick(3, 4))),
        scenario(format!("histories of {} without handlers", d), 0, move || c10_history(d, false)),
        scenario(format!("bursts of {}", n), 1, move || c10_burst(n)),
    ]
}

// ---------------------------------------------------------------- the builders, for C01 and C11

/// What may be given to `binary` before the arguments: the last call counts.
const MODES: [&[bool]; 6] = [&[], &[true], &[false], &[true, false], &[false, true], &[true, true]];
const SURFACE_ARGS: usize = 7;

macro_rules! surface_arg {
    ($b:expr, $k:expr) => {
        match $k {
            0 => $b.arg_ref(&7u64).unwrap(),
            1 => $b.arg_ref("s").unwrap(),
            2 => $b.arg_ref(&[1u8, 2][..]).unwrap(),
            3 => $b.arg_ref(&Vec::<u8>::new()).unwrap(),
            4 => $b = $b.arg(&(true, vec![3u8])).unwrap(),
            5 => $b = $b.arg(&Some(vec![255u8, 0])).unwrap(),
            _ => {
                let bad: std::collections::BTreeMap<Vec<u8>, u8> = [(vec![1u8], 1u8)].into_iter().collect();
                if $b.arg_ref(&bad).is_ok() {
                    return Err(viol("arg", "a map with array keys was accepted"));
                }
            }
        }
    };
}

fn surface_want(ks: &[usize], binary: bool) -> (Vec<&'static str>, Vec<Vec<u8>>) {
    let all: [(&str, Option<&[u8]>); 6] = [
        ("7", None),
        ("\"s\"", None),
        ("[1,2]", Some(&[1, 2])),
        ("[]", None),
        ("[true,[3]]", Some(&[3])),
        ("[255,0]", Some(&[255, 0])),
    ];
    let ks = ks.iter().filter(|k| **k < 6);
    (
        ks.clone().map(|k| all[*k].0).collect(),
        ks.filter_map(|k| all[*k].1).filter(|_| binary).map(|b| b.to_vec()).collect(),
    )
}

fn surface_args(max: usize) -> Vec<usize> {
    let n = choose(max + 1);
    (0..n).map(|_| choose(SURFACE_ARGS)).collect()
}

/// Every way to use the builder of an event: what goes out states what was built.
fn c01_events(max: usize) -> Result<u64, Viol> {
    run(&calm(), move |ctx| {
        let mut c = ctx.connect()?;
        let ns = ["/", "/a", "/a/é", "/1"][choose(4)];
        let ev = ["e", "", "\"\\"][choose(3)];
        let ks = surface_args(max);
        let mut want = Vec::new();
        step();
        for modes in MODES {
            for cbs in 0..4 {
                let plain = ns == "/" && cbs % 2 == 0;
                let mut b = if plain { c.emit(ev) } else { c.namespace_emit(ns, ev) };
                if cbs & 1 != 0 {
                    b = b.callback(ack_handler(&ctx.obs, "before"));
                }
                for m in modes {
                    b = b.binary(*m);
                }
                if cbs & 2 != 0 {
                    b = b.callback(ack_handler(&ctx.obs, "after"));
                }
                let mut b = b.args();
                for k in &ks {
                    surface_arg!(b, *k);
                }
                b.send();
                let bin = modes.last() == Some(&true);
                let (args, atts) = surface_want(&ks, bin);
                want.push((cbs > 0, bin, args, atts));
            }
        }
        ctx.settle()?;
        let ps = parse_sent(&ctx.net.take())?;
        if ps.len() != want.len() {
            return Err(viol("wire", format!("{} events went out as {:?}", want.len(), ps)));
        }
        let mut ids = Vec::new();
        for (p, (id, bin, args, atts)) in ps.iter().zip(&want) {
            let mut l = vec![quote(ev)];
            l.extend(args.iter().map(|s| s.to_string()));
            let i = p.0.id.map_or("-".to_string(), |i| i.to_string());
            if p.0.binary != *bin || p.0.id.is_some() != *id || p.0.attachments as usize != atts.len() {
                return Err(viol("header", format!("event (id: {}, binary: {}) went out as {:?}", id, bin, p)));
            }
            if let Some(i) = p.0.id {
                if ids.contains(&i) {
                    return Err(viol("id", format!("id {} is used twice", i)));
                }
                ids.push(i);
            }
            let w = format!("event {} {} [{}] {:?}", ns, i, l.join(","), atts);
            let g = packet_show(p);
            if g != w {
                return Err(viol("event", format!("went out as {} instead of {}", g, w)));
            }
        }
        Ok(ids.len() as u64)
    })
}

/// Every way to use the builder of an answer.
fn c11_surface(max: usize) -> Result<u64, Viol> {
    run(&calm(), move |ctx| {
        let mut c = ctx.connect()?;
        let ns = ["/", "/a", "/a/é", "/1", "/a?b=c"][choose(5)];
        let id = [0, 7, u64::MAX][choose(3)];
        let ks = surface_args(max);
        let store: Store = Arc::default();
        let (o, s) = (ctx.obs.clone(), store.clone());
        c.set_namespace_event_callback(ns, "keep", storing(&o, &s));
        let mut fs = Vec::new();
        for _ in MODES {
            fs.push(Fr::T(event_text(ns, Some(id), "keep", "")));
        }
        push_frames(ctx, &fs);
        ctx.settle()?;
        let hs: Vec<AckBuilder> = store.lock().unwrap().drain(..).flatten().collect();
        if hs.len() != MODES.len() {
            return Err(viol("handle", format!("{} handles for {} events with id", hs.len(), MODES.len())));
        }
        let mut want = Vec::new();
        step();
        for (modes, mut b) in MODES.into_iter().zip(hs) {
            for m in modes {
                b = b.binary(*m);
            }
            let mut b = b.args();
            for k in &ks {
                surface_arg!(b, *k);
            }
            b.send();
            let bin = modes.last() == Some(&true);
            let (args, atts) = surface_want(&ks, bin);
            want.push(format!("{} ack {} {} [{}] {:?}", bin, ns, id, args.join(","), atts));
        }
        ctx.settle()?;
        let ps = parse_sent(&ctx.net.take())?;
        let got: Vec<String> = ps.iter().map(|p| format!("{} {}", p.0.binary, packet_show(p))).collect();
        eq_list("reply", "answers sent (binary, namespace, id, arguments)", &got, &want)?;
        Ok(dig(&[got]))
    })
}

/// Many handles at once, used first to last, last to first, or every other one.
fn c11_volume(n: usize) -> Result<u64, Viol> {
    let cfg = WorldCfg {
        max_steps: 10_000 + 300 * n as u64,
        ..calm()
    };
    run(&cfg, move |ctx| {
        let mut c = ctx.connect()?;
        let (order, binary) = (choose(3), choose(2) == 1);
        step();
        let store: Store = Arc::default();
        for ns in NS {
            let s = store.clone();
            c.set_namespace_event_callback(ns, "keep", move |_: &Args, ack: Option<AckBuilder>| {
                s.lock().unwrap().push(ack);
            });
        }
        let id = |i: usize| if i % 5 == 4 { None } else { Some((i as u64 / 2).wrapping_mul(0x9e3779b97f4a7c15)) };
        for i in 0..n {
            ctx.net.push(&text(&event_text(NS[i % 2], id(i), "keep", "")));
            if i % 512 == 511 {
                ctx.settle()?;
            }
        }
        ctx.settle()?;
        let mut hs: Vec<Option<AckBuilder>> = store.lock().unwrap().drain(..).collect();
        if hs.len() != n {
            return Err(viol("handle", format!("{} handler calls for {} events", hs.len(), n)));
        }
        let use_order: Vec<usize> = match order {
            0 => (0..n).collect(),
            1 => (0..n).rev().collect(),
            _ => (0..n).step_by(2).collect(),
        };
        let mut want = Vec::new();
        for (k, i) in use_order.into_iter().enumerate() {
            match (hs[i].take(), id(i)) {
                (Some(h), Some(id)) => {
                    h.binary(binary).args().arg(&i).unwrap().arg(&[i as u8][..]).unwrap().send();
                    let att = if binary { vec![vec![i as u8]] } else { vec![] };
                    want.push(format!("ack {} {} [{},[{}]] {:?}", NS[i % 2], id, i, i as u8, att));
                }
                (None, None) => {}
                (h, id) => return Err(viol("handle", format!("handle: {} for id {:?}", h.is_some(), id))),
            }
            if k % 512 == 511 {
                ctx.settle()?;
            }
        }
        drop(hs);
        ctx.settle()?;
        let got: Vec<String> = parse_sent(&ctx.net.got())?.iter().map(packet_show).collect();
        if let Some(k) = (0..want.len().max(got.len())).find(|k| want.get(*k) != got.get(*k)) {
            return Err(viol("reply", format!("answer {} is {:?} instead of {:?}", k, got.get(k), want.get(k))));
        }
        match ctx.close(&mut c) {
            Ok(()) => Ok(n as u64),
            Err(e) => Err(viol("result", format!("close reports {} after valid traffic", e))),
        }
    })
}

/// Added to C01: events as the client's builders send them.
pub fn c01_client(tier: Tier) -> Vec<Scenario> {
    let m = tier.pick(2, 3);
    vec![scenario(format!("events of the client with up to {} arguments", m), 0, move || c01_events(m))]
}

// ---------------------------------------------------------------- C11

type Store = Arc<Mutex<Vec<Option<AckBuilder>>>>;

/// What a reply of each shape must look like: (binary, args as JSON texts, attachments).
pub const SHAPES: usize = 5;
pub fn reply(b: AckBuilder, shape: usize, tag: u64) {
    match shape {
        0 => b.args().send(),
        1 => b.args().arg(&tag).unwrap().arg("s").unwrap().send(),
        2 => b
            .binary(true)
            .args()
            .arg(&(tag, &[1u8, 2][..]))
            .unwrap()
            .arg(&Vec::<u8>::new())
            .unwrap()
            .arg(&vec![tag as u8, 3])
            .unwrap()
            .send(),
        3 => b.binary(true).args().arg(&tag).unwrap().send(),
        _ => {
            let mut x = b.args();
            let bad: std::collections::BTreeMap<Vec<u8>, u8> = [(vec![1u8], 1u8)].into_iter().collect();
            let _ = x.arg_ref(&bad);
            x.arg_ref(&tag).unwrap();
            x.arg_ref(&None::<u8>).unwrap();
            x.send()
        }
    }
}
pub fn reply_show(ns: &str, id: u64, shape: usize, tag: u64) -> String {
    let (args, att): (Vec<String>, Vec<Vec<u8>>) = match shape {
        0 => (vec![], vec![]),
        1 => (vec![tag.to_string(), "\"s\"".into()], vec![]),
        2 => (
            vec![format!("[{},[1,2]]", tag), "[]".into(), format!("[{},3]", tag as u8)],
            vec![vec![1, 2], vec![tag as u8, 3]],
        ),
        3 => (vec![tag.to_string()], vec![]),
        _ => (vec![tag.to_string(), "null".into()], vec![]),
    };
    format!("ack {} {} [{}] {:?}", ns, id, args.join(","), att)
}
pub fn packet_show(p: &(RefPacket, Vec<Vec<u8>>)) -> String {
    let d = Delivery {
        packet: p.0.clone(),
        atts: p.1.clone(),
    };
    format!(
        "{} {} {} {} {:?}",
        if p.0.kind == Kind::Ack { "ack" } else { "event" },
        p.0.ns,
        p.0.id.map_or("-".to_string(), |i| i.to_string()),
        d.shown(),
        p.1
    )
}

/// A handler that stores the reply handle and records whether there was one.
fn storing(obs: &Obs, store: &Store) -> EventCallback {
    let (obs, store) = (obs.clone(), store.clone());
    EventCallback::from(move |args: &Args, ack: Option<AckBuilder>| {
        obs.push(format!("{}{}", show_args(args), if ack.is_some() { " ack" } else { "" }));
        if let Some(a) = ack {
            store.lock().unwrap().push(Some(a));
        }
    })
}

const IDS: [Option<u64>; 4] = [None, Some(0), Some(1), Some(u64::MAX)];

fn c11_history(depth: usize) -> Result<u64, Viol> {
    run(&calm(), move |ctx| {
        let mut c = ctx.connect()?;
        let store: Store = Arc::default();
        for ns in NS {
            let (o, s) = (ctx.obs.clone(), store.clone());
            c.set_namespace_event_callback(ns, "keep", storing(&o, &s));
            let o = ctx.obs.clone();
            c.set_namespace_event_callback(ns, "now", move |args: &Args, ack: Option<AckBuilder>| {
                o.push(format!("{}{}", show_args(args), if ack.is_some() { " ack" } else { "" }));
                if let Some(a) = ack {
                    reply(a, 1, 77)
                }
            });
        }
        // model
        let mut handles: Vec<Option<(String, u64)>> = Vec::new();
        let mut want: Vec<String> = Vec::new();
        let mut seen: Vec<String> = Vec::new();
        for i in 0..depth {
            step();
            let open: Vec<usize> = (0..handles.len()).filter(|&i| handles[i].is_some()).collect();
            // 0: keep event, 1: now event, then per open handle SHAPES replies and a drop
            let k = choose(12 + open.len() * (SHAPES + 1));
            if k < 12 {
                let ns = NS[k & 1];
                let now = k >= 8;
                let id = if now { IDS[(k >> 1) & 1] } else { IDS[(k >> 1) & 3] };
                let ev = if now { "now" } else { "keep" };
                let binary = i & 1 == 1;
                let fs = if binary {
                    vec![
                        Fr::T(format!(
                            "451-{}{}[{},{{\"_placeholder\":true,\"num\":0}}]",
                            ns_prefix(ns),
                            id.map(|i| i.to_string()).unwrap_or_default(),
                            quote(ev)
                        )),
                        a(&[5, 6]),
                    ]
                } else {
                    vec![Fr::T(event_text(ns, id, ev, ",[5,6]"))]
                };
                push_frames(ctx, &fs);
                ctx.settle()?;
                seen.push(format!("[\"{}\",[5,6]]{}", ev, if id.is_some() { " ack" } else { "" }));
                eq_list("handle", "handler calls (ack: with reply handle)", &ctx.obs.get(), &seen)?;
                if let Some(id) = id {
                    if now {
                        want.push(reply_show(ns, id, 1, 77));
                    } else {
                        handles.push(Some((ns.to_string(), id)));
                    }
                }
            } else {
                let h = open[(k - 12) / (SHAPES + 1)];
                let shape = (k - 12) % (SHAPES + 1);
                let b = store.lock().unwrap()[h].take().unwrap();
                let (ns, id) = handles[h].take().unwrap();
                if shape == SHAPES {
                    log_line(|| format!("drop handle {}", h));
                    drop(b);
                } else {
                    log_line(|| format!("reply {} through handle {}", shape, h));
                    reply(b, shape, i as u64);
                    want.push(reply_show(&ns, id, shape, i as u64));
                }
                ctx.settle()?;
            }
            let got: Vec<String> = parse_sent(&ctx.net.got())?.iter().map(packet_show).collect();
            eq_list("reply", "packets sent", &got, &want)?;
        }
        // The handles left are dropped; nothing goes out.
        store.lock().unwrap().clear();
        match ctx.close(&mut c) {
            Ok(()) => {}
            Err(e) => return Err(viol("result", format!("close reports {}", e))),
        }
        let got: Vec<String> = parse_sent(&ctx.net.got())?.iter().map(packet_show).collect();
        eq_list("reply", "packets sent", &got, &want)?;
        Ok(dig(&[want, seen]))
    })
}

/// Replies from other threads, in every interleaving with arriving events and emissions.
fn c11_threads(replies: usize, threads: usize) -> Result<u64, Viol> {
    run(&WorldCfg::default(), move |ctx| {
        let mut c = ctx.connect()?;
        let store: Store = Arc::default();
        c.set_event_callback("keep", storing(&ctx.obs, &store));
        c.set_namespace_event_callback("/a", "keep", storing(&ctx.obs, &store));
        let mut fs = Vec::new();
        for i in 0..replies {
            fs.push(Fr::T(event_text(NS[i & 1], Some(i as u64 / 2), "keep", "")));
        }
        push_frames(ctx, &fs);
        sched::settle();
        let hs: Vec<AckBuilder> = store.lock().unwrap().iter_mut().map(|h| h.take().unwrap()).collect();
        if hs.len() != replies {
            return Err(viol("handle", format!("{} handles for {} events with id", hs.len(), replies)));
        }
        let mut per: Vec<Vec<(usize, AckBuilder)>> = (0..threads).map(|_| Vec::new()).collect();
        for (i, h) in hs.into_iter().enumerate() {
            per[i % threads].push((i, h));
        }
        let mut ids = Vec::new();
        let mut wants: Vec<Vec<String>> = Vec::new();
        for (k, v) in per.into_iter().enumerate() {
            wants.push(
                v.iter()
                    .map(|(i, _)| reply_show(NS[i & 1], *i as u64 / 2, 1 + (i + k) % 2, *i as u64))
                    .collect(),
            );
            ids.push(sched::spawn(format!("replier {}", k), false, move || {
                for (i, h) in v {
                    reply(h, 1 + (i + k) % 2, i as u64);
                }
            }));
        }
        push_frames(ctx, &[t("2"), Fr::T(event_text("/", Some(99), "keep", ""))]);
        emit(&mut c, &ctx.obs, "/", "e", None, true, None);
        sched::settle();
        ctx.settle()?;
        for id in ids {
            if !sched::is_done(id) {
                return Err(viol("blocked", "a replying thread did not finish"));
            }
        }
        let got: Vec<String> = parse_sent(&ctx.net.got())?.iter().map(packet_show).collect();
        let mut g = got.clone();
        let mut w: Vec<String> = wants.concat();
        w.push("event / - [\"e\",[1,2]] [[1, 2]]".into());
        g.sort();
        w.sort();
        eq_list("reply", "packets sent (sorted)", &g, &w)?;
        for v in &wants {
            let o: Vec<String> = got.iter().filter(|x| v.contains(x)).cloned().collect();
            eq_list("reply-order", "replies of one thread", &o, v)?;
        }
        Ok(dig(&[got]))
    })
}

pub fn c11(tier: Tier) -> Vec<Scenario> {
    let d = tier.pick(4, 5);
    let m = tier.pick(2, 3);
    let v = tier.pick(70_000, 140_000);
    vec![
        scenario(format!("{} handles at once", v), 0, move || c11_volume(v)),
        scenario("namespaces and ids of every form", 0, c11_words),
        scenario(format!("answers with up to {} arguments", m), 0, move || c11_surface(m)),
        scenario(format!("histories of {}", d), 0, move || c11_history(d)),
        idling(scenario(format!("histories of {}", d - 1), 0, move || c11_history(d - 1))),
        scenario("replies from 2 threads", tier.pick(2, 3), || c11_threads(3, 2)),
        scenario("replies from 3 threads", tier.pick(1, 2), || c11_threads(4, 3)),
    ]
}
