//! Transport, queueing, heartbeat, connecting and closing: C12 to C16.
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
use std::sync::{Arc, Mutex};

use async_tungstenite_message::Message as WsMessage;
use mcrt::explore::{choose, choose_cost, log_line, Scenario, Viol};
use mcrt::sched::{self, WorldCfg};
use socket_io_client::protocol::Args;
use socket_io_client::{AckBuilder, Client, Error, EventCallback};

use crate::client_a::{calm, still, emit, event_frames, event_text, packet_show, parse_sent, push_frames};
use crate::driver::{buffering, idling, scenario, viol, Tier};
use crate::model::{a, expect, t, Expect, Fr, Reg};
use crate::reference::quote;
use crate::world::*;

mod async_tungstenite_message {
    pub use tungstenite::Message;
}

// ---------------------------------------------------------------- C12

struct Session {
    name: &'static str,
    frames: Vec<Fr>,
    /// Send every message in WebSocket fragments.
    fragmented: bool,
    /// Raw bytes after the frames.
    tail: Vec<u8>,
    /// The server starts the closing handshake after the frames, and ends the stream once answered.
    close: bool,
    eof: bool,
    /// Must the connection end with an error?
    error: bool,
}

fn ev(s: &str) -> Fr {
    t(s)
}

/// `id`: that of the outstanding acknowledgement.
fn sessions(id: u64) -> Vec<Session> {
    let base = |name, frames| Session {
        name,
        frames,
        fragmented: false,
        tail: Vec::new(),
        close: false,
        eof: false,
        error: false,
    };
    let mixed = || {
        vec![
            ev(r#"42["x",1]"#),
            t("2"),
            ev(r#"42/a,5["q",[2]]"#),
            t("452-/a,[\"x\",{\"_placeholder\":true,\"num\":1},{\"_placeholder\":true,\"num\":0}]"),
            a(b"one"),
            t("2"),
            a(b""),
            t(&format!("43{}[\"acked\"]", id)),
            ev(r#"42["none"]"#),
        ]
    };
    vec![
        base("events", vec![ev(r#"42["x",1]"#), ev(r#"42["x",2]"#)]),
        base(
            "binary",
            vec![
                t("451-7[\"q\",{\"_placeholder\":true,\"num\":0}]"),
                a(b"abc"),
                ev(r#"42["x"]"#),
            ],
        ),
        base("heartbeat", vec![t("2"), Fr::WsPing, t("3"), t("2")]),
        base("mixed", mixed()),
        Session {
            fragmented: true,
            ..base("fragmented", mixed()[..5].to_vec())
        },
        Session {
            error: true,
            ..base("bad packet", vec![ev(r#"42["x"]"#), t("42[1"), ev(r#"42["x"]"#)])
        },
        Session {
            close: true,
            ..base("server closes", vec![ev(r#"429["q"]"#), t("2")])
        },
        Session {
            tail: text(r#"42["x",123]"#)[..7].to_vec(),
            eof: true,
            error: true,
            ..base("cut off", vec![ev(r#"42["x"]"#)])
        },
    ]
}

/// A handler that records and answers.
fn answering(obs: &Obs, name: &str) -> EventCallback {
    let obs = obs.clone();
    let name = name.to_string();
    let mut n = 0u64;
    EventCallback::from(move |args: &Args, ack: Option<AckBuilder>| {
        n += 1;
        obs.push(format!(
            "{}#{} {}{}",
            name,
            n,
            show_args(args),
            if ack.is_some() { " ack" } else { "" }
        ));
        if let Some(a) = ack {
            a.binary(true).args().arg(&n).unwrap().arg(&[1u8, 2, 3][..]).unwrap().send()
        }
    })
}

fn c12_reg(c: &mut Client, obs: &Obs) -> Reg {
    let mut r = Reg::default();
    crate::client_a::set_handler(c, &mut r, obs, "/", "x", "root-x");
    crate::client_a::set_handler(c, &mut r, obs, "/a", "x", "a-x");
    c.set_event_callback("q", answering(obs, "root-q"));
    c.set_namespace_event_callback("/a", "q", answering(obs, "a-q"));
    r.ev.insert(("/".into(), "q".into()), "root-q".into());
    r.ev.insert(("/a".into(), "q".into()), "a-q".into());
    emit(c, obs, "/", "hello", Some("cb"), true, Some("v"));
    r
}

/// What the client must have sent, in order: the emission, then answers as their causes arrive.
fn c12_sent(frames: &[Fr], id: u64) -> Vec<String> {
    let mut v = vec![format!("event / {} [\"hello\",\"v\",[1,2]] [[1, 2]]", id)];
    let mut n = [0u64; 2];
    let mut s = crate::model::Session::default();
    for f in frames {
        match s.feed(f) {
            crate::model::Out::Pong => v.push("pong".into()),
            crate::model::Out::Deliver(d) => {
                if d.packet.kind == crate::reference::Kind::Event && d.event().as_deref() == Some("q") {
                    let k = (d.packet.ns == "/a") as usize;
                    n[k] += 1;
                    if let Some(id) = d.packet.id {
                        v.push(format!("ack {} {} [{},[1,2,3]] [[1, 2, 3]]", d.packet.ns, id, n[k]))
                    }
                }
            }
            crate::model::Out::Error => break,
            _ => {}
        }
    }
    v
}

/// Packets and pongs sent, in order.
fn sent_lines(ms: &[Msg]) -> Result<Vec<String>, Viol> {
    let mut out = Vec::new();
    let mut i = 0;
    while i < ms.len() {
        match &ms[i] {
            Msg::Text(s) if s == "3" => {
                out.push("pong".into());
                i += 1
            }
            Msg::Text(s) if s.starts_with('4') => {
                let mut j = i + 1;
                while matches!(ms.get(j), Some(Msg::Bin(_))) {
                    j += 1
                }
                out.extend(parse_sent(&ms[i..j])?.iter().map(packet_show));
                i = j;
            }
            Msg::Pong(_) => i += 1,
            Msg::Close(_) => {
                out.push("close".into());
                i += 1
            }
            m => return Err(viol("wire", format!("the client sent {}", m.show()))),
        }
    }
    Ok(out)
}

#[derive(Clone, Copy, PartialEq)]
enum Dev {
    /// Every read length.
    Reads,
    /// Few read lengths, unready reads.
    ReadPend,
    /// Short and unready writes and flushes.
    Writes,
    /// Everything, handshake included.
    Handshake,
    /// Polls without cause.
    Spurious,
    /// Everything at once.
    All,
    /// Long pauses between the bytes.
    Slow,
}

/// Pieces of every frame with pauses between them, while the transport takes data or not.
fn slowly(ctx: &Ctx, s: &Session, bytes: &[u8]) {
    // Where frames begin, and a point within each.
    let mut cuts = vec![0];
    for f in &s.frames {
        let n = if s.fragmented { f.fragmented() } else { f.bytes() }.len();
        let from = *cuts.last().unwrap();
        cuts.extend([from + 1, from + n / 2, from + n]);
    }
    cuts.push(bytes.len());
    cuts.dedup();
    let blocked = choose(2) == 1;
    if blocked {
        ctx.net.credit(Some(0));
    }
    for w in cuts.windows(2) {
        match choose_cost(4) {
            0 => (),
            1 => sched::settle(),
            2 => sched::pass(secs(30.0)),
            _ => sched::pass(secs(86_400.0)),
        }
        ctx.net.push(&bytes[w[0]..w[1]]);
    }
    if blocked {
        ctx.net.credit(None);
    }
    sched::settle();
    sched::pass(secs(86_400.0));
}

fn c12_run(k: usize, dev: Dev) -> Result<u64, Viol> {
    let cfg = WorldCfg {
        preempt: false,
        spurious: dev == Dev::Spurious || dev == Dev::All,
        ..WorldCfg::default()
    };
    run(&cfg, move |ctx| {
        let set = |n: &mut Net| match dev {
            Dev::Reads => n.rsplit = Split::All,
            Dev::ReadPend => {
                n.rsplit = Split::Few;
                n.rpend = true;
            }
            Dev::Writes => {
                n.wsplit = Split::Few;
                n.wpend = true;
                n.fpend = true;
            }
            Dev::Handshake => {
                n.rsplit = Split::All;
                n.wsplit = Split::Few;
                n.rpend = true;
                n.wpend = true;
                n.fpend = true;
            }
            Dev::Spurious | Dev::Slow => (),
            Dev::All => {
                n.rsplit = Split::Few;
                n.wsplit = Split::Few;
                n.rpend = true;
                n.wpend = true;
                n.fpend = true;
            }
        };
        let mut c = if dev == Dev::Handshake {
            ctx.net.with(set);
            let r = sched::block_on("connecting", Client::from_stream("ws://h/", ctx.net.stream(), &ctx.spawner));
            let c = r.map_err(|e| viol("connect", format!("connecting failed: {}", e)))?;
            mcrt::costed_choices(false);
            sched::settle();
            c
        } else {
            let c = ctx.connect()?;
            ctx.net.with(set);
            c
        };
        let mut reg = c12_reg(&mut c, &ctx.obs);
        // The emission leaves before the first answer.
        mcrt::costed_choices(false);
        sched::settle();
        let id = crate::client_a::asked_id(ctx)?;
        reg.acks.insert(("/".into(), id), "cb".into());
        let s = sessions(id).swap_remove(k);
        if dev != Dev::Handshake {
            mcrt::costed_choices(true);
        }
        let mut bytes = Vec::new();
        for f in &s.frames {
            bytes.extend(if s.fragmented { f.fragmented() } else { f.bytes() });
        }
        bytes.extend(&s.tail);
        log_line(|| format!("server sends session {}", s.name));
        if dev == Dev::Slow {
            slowly(ctx, &s, &bytes);
        } else {
            ctx.net.push(&bytes);
        }
        if s.close {
            ctx.net.with(|n| n.on_close = OnClose::Eof);
            ctx.net.server_close(Some(1000));
        }
        if s.eof {
            ctx.net.eof();
        }
        ctx.settle()?;
        let e = expect(&s.frames, &reg);
        eq_list("calls", "callbacks run", &ctx.obs.get(), &e.calls)?;
        let mut want = c12_sent(&s.frames, id);
        if s.close {
            // Answers still queued when the server closes the session may be dropped.
            let mut got = sent_lines(&ctx.net.got())?;
            if got.pop().as_deref() != Some("close") {
                return Err(viol("close-reply", format!("the server's close was not answered: {:?}", got)));
            }
            if !want.starts_with(&got) {
                return Err(viol("sent", format!("messages sent: {:?}, expected a beginning of {:?}", got, want)));
            }
            if !ctx.task_done() {
                return Err(viol("ended", "the connection task outlives the stream"));
            }
        } else if !s.error {
            let got = sent_lines(&ctx.net.got())?;
            eq_list("sent", "messages sent", &got, &want)?;
        }
        let r = ctx.close(&mut c);
        match (&r, s.error) {
            (Ok(()), true) => return Err(viol("result", "the error was not reported")),
            (Err(e), false) => return Err(viol("result", format!("close reports {}", e))),
            _ => {}
        }
        eq_list("calls", "callbacks run", &ctx.obs.get(), &e.calls)?;
        if !s.error && !s.close {
            want.push("close".into());
            let got = sent_lines(&ctx.net.got())?;
            eq_list("sent", "messages sent", &got, &want)?;
        }
        Ok(dig(&[e.calls, want, vec![r.is_ok().to_string()]]))
    })
}

/// Message sizes around every length encoding, in both directions, in pieces of every kind.
fn c12_sizes(sizes: &'static [usize]) -> Result<u64, Viol> {
    let cfg = WorldCfg {
        max_steps: 10_000_000,
        ..calm()
    };
    run(&cfg, move |ctx| {
        let mut c = ctx.connect()?;
        let n = sizes[choose(sizes.len())];
        // Very large messages come in large pieces only.
        let piece = [usize::MAX, 65_536, 4_096, 1_000, 127, 7, 1][choose(if n > 10_000 { 4 } else { 7 })];
        let fragmented = choose(2) == 1;
        let binary = choose(2) == 1;
        let s: String = (0..n).map(|i| (b'a' + (i % 23) as u8) as char).collect();
        let b: Vec<u8> = (0..n).map(|i| (i % 251) as u8).collect();
        let seen: Arc<Mutex<Vec<(String, Vec<u8>)>>> = Arc::default();
        let w = seen.clone();
        c.set_event_callback("x", move |args: &Args, _: Option<AckBuilder>| {
            let t = args.get(1).and_then(|a| a.deserialize::<String>().ok()).unwrap_or_default();
            let b = args.get(2).and_then(|a| a.deserialize::<Vec<u8>>().ok()).unwrap_or_default();
            w.lock().unwrap().push((t, b));
        });
        let mut fs = vec![Fr::T(format!("42[\"x\",\"{}\"]", s))];
        let mut want = vec![(s.clone(), vec![])];
        if binary {
            fs.insert(0, Fr::T(format!("451-[\"x\",\"{}\",{{\"_placeholder\":true,\"num\":0}}]", s)));
            fs.insert(1, a(&b));
            want.insert(0, (s.clone(), b.clone()));
        }
        fs.push(t("42[\"x\",\"end\"]"));
        want.push(("end".into(), vec![]));
        let mut bytes = Vec::new();
        for f in &fs {
            bytes.extend(if fragmented { f.fragmented() } else { f.bytes() });
        }
        log_line(|| format!("server sends {} bytes, message size {}, pieces of {}, fragments {}", bytes.len(), n, piece, fragmented));
        for p in bytes.chunks(piece) {
            ctx.net.push(p);
            sched::settle();
        }
        ctx.settle()?;
        let got = seen.lock().unwrap().clone();
        if got != want {
            let short: Vec<String> = got.iter().map(|g| format!("{} chars, {} bytes", g.0.len(), g.1.len())).collect();
            return Err(viol("large", format!("messages of {} arrived as {:?}", n, short)));
        }
        // and out again
        if piece != usize::MAX {
            ctx.net.credit(Some(0));
        }
        c.emit("big").binary(binary).args().arg(&s).unwrap().arg(&b[..]).unwrap().send();
        c.emit("end").args().send();
        let js = format!("[{}]", b.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","));
        let mut want = Vec::new();
        let mut with = vec![4];
        with.extend(&b);
        if binary {
            // an empty byte string still is an attachment
            want.push(Msg::Text(format!("451-[\"big\",\"{}\",{{\"_placeholder\":true,\"num\":0}}]", s)));
            want.push(Msg::Bin(with));
        } else {
            want.push(Msg::Text(format!("42[\"big\",\"{}\",{}]", s, js)));
        }
        want.push(Msg::Text("42[\"end\"]".into()));
        let total: usize = want
            .iter()
            .map(|m| match m {
                Msg::Text(s) => s.len() + 14,
                Msg::Bin(b) => b.len() + 14,
                _ => 0,
            })
            .sum();
        if piece != usize::MAX {
            for _ in 0..total / piece + 2 {
                ctx.net.credit(Some(piece));
                sched::settle();
            }
            ctx.net.credit(None);
        }
        ctx.settle()?;
        let got: Vec<Msg> = ctx.net.got().into_iter().filter(|m| !matches!(m, Msg::Pong(_))).collect();
        // `&b[..]` of no bytes may go out as an empty array instead
        let empty = n == 0 && binary && got.first() == Some(&Msg::Text("450-[\"big\",\"\",[]]".into())) && got.len() == 2;
        if got != want && !empty {
            let short: Vec<String> = shown(&got).iter().map(|g| g.chars().take(60).collect()).collect();
            return Err(viol("large-sent", format!("messages of {} went out as {:?}", n, short)));
        }
        match ctx.close(&mut c) {
            Ok(()) => Ok(n as u64),
            Err(e) => Err(viol("result", format!("close reports {}", e))),
        }
    })
}

const SIZES: [usize; 22] = [
    0, 1, 2, 90, 100, 110, 118, 119, 120, 121, 122, 123, 124, 125, 126, 127, 128, 255, 256, 4_095, 4_096, 65_520,
];
const SIZES_MORE: [usize; 50] = [
    0, 1, 2, 90, 100, 105, 106, 107, 108, 109, 110, 111, 112, 113, 114, 115, 116, 117, 118, 119, 120, 121, 122, 123, 124, 125,
    126, 127, 128, 255, 256, 257, 1_023, 1_024, 4_095, 4_096, 4_097, 8_191, 8_192, 65_500, 65_520, 65_524, 65_525, 65_526,
    65_534, 65_535, 65_536, 65_537, 131_072, 1_000_000,
];

pub fn c12(tier: Tier) -> Vec<Scenario> {
    let sizes = tier.pick(&SIZES[..], &SIZES_MORE[..]);
    let mut v = vec![
        scenario("sizes", 0, move || c12_sizes(sizes)),
        buffering(scenario("sizes", 0, move || c12_sizes(sizes))),
    ];
    for (k, s) in sessions(0).iter().enumerate() {
        for (dev, name, q, th) in [
            (Dev::Reads, "every read length", if s.frames.len() < 5 { 2 } else { 1 }, 2),
            (Dev::ReadPend, "unready reads", 3, 3),
            (Dev::Writes, "short and unready writes", if s.frames.len() < 5 { 3 } else { 2 }, 3),
            (Dev::Spurious, "polls without cause", 3, 3),
            (Dev::Slow, "long pauses", 2, 3),
            (Dev::Handshake, "from the handshake on", 1, 2),
            (Dev::All, "everything", 2, if s.frames.len() < 5 { 3 } else { 2 }),
        ] {
            if dev == Dev::Handshake && k > 1 {
                continue;
            }
            v.push(scenario(format!("{}: {}", s.name, name), tier.pick(q, th), move || c12_run(k, dev)));
            if matches!(dev, Dev::Writes | Dev::Slow | Dev::Handshake | Dev::All) {
                v.push(buffering(scenario(format!("{}: {}", s.name, name), tier.pick(q, th), move || c12_run(k, dev))));
            }
        }
    }
    v
}

// ---------------------------------------------------------------- C13

/// One packet handed over: who, the messages on the wire, when the hand-over began and ended.
#[derive(Clone)]
struct Handed {
    who: usize,
    wire: Vec<String>,
    begin: usize,
    end: usize,
}

#[derive(Clone, Default)]
struct Book(Arc<Mutex<Vec<Handed>>>, Arc<AtomicUsize>);

impl Book {
    fn tick(&self) -> usize {
        self.1.fetch_add(1, SeqCst)
    }
    fn hand(&self, who: usize, wire: Vec<String>, f: impl FnOnce()) {
        let begin = self.tick();
        f();
        let end = self.tick();
        self.0.lock().unwrap().push(Handed { who, wire, begin, end });
    }
}

/// The wire is a sequence of whole packets of the book, each once, in hand-over order.
fn check_wire(ms: &[Msg], book: &[Handed]) -> Result<(), Viol> {
    let ms: Vec<String> = ms
        .iter()
        .filter(|m| !matches!(m, Msg::Pong(_) | Msg::Close(_)))
        .map(Msg::show)
        .collect();
    let mut used = vec![false; book.len()];
    let mut order: Vec<usize> = Vec::new();
    let mut i = 0;
    while i < ms.len() {
        // Equal packets (pongs) of one source are interchangeable: take the earliest.
        let k = (0..book.len())
            .filter(|&k| !used[k] && ms[i..].starts_with(&book[k].wire))
            .min_by_key(|&k| book[k].begin);
        match k {
            Some(k) => {
                used[k] = true;
                order.push(k);
                i += book[k].wire.len();
            }
            None => {
                return Err(viol(
                    "whole",
                    format!("what was sent is not a sequence of whole packets: {:?} (at message {})", ms, i),
                ))
            }
        }
    }
    if let Some(k) = used.iter().position(|u| !u) {
        return Err(viol("lost", format!("packet {:?} was never sent: {:?}", book[k].wire, ms)));
    }
    for (x, &i) in order.iter().enumerate() {
        for &j in &order[x + 1..] {
            let (first, second) = (&book[i], &book[j]);
            if second.end < first.begin {
                return Err(viol(
                    "order",
                    format!(
                        "{:?} was handed over before {:?} but sent after it: {:?}",
                        second.wire, first.wire, ms
                    ),
                ));
            }
            let _ = first.who;
        }
    }
    Ok(())
}

#[derive(Clone, Copy)]
struct Mix {
    emitters: usize,
    per: usize,
    raw: bool,
    replies: usize,
    pings: usize,
    blocked: bool,
    tweaks: bool,
    /// attachments per emitted packet
    wide: usize,
}

fn c13_run(m: Mix, preempt: bool) -> Result<u64, Viol> {
    let cfg = WorldCfg {
        preempt,
        ..WorldCfg::default()
    };
    run(&cfg, move |ctx| {
        let mut c = ctx.connect()?;
        let book = Book::default();
        let b = book.clone();
        // The handler answers at once: the connection task is a source of packets as well.
        let mut n = 0u64;
        c.set_event_callback("now", move |_: &Args, ack: Option<AckBuilder>| {
            n += 1;
            let k = n - 1;
            b.hand(
                90,
                vec![
                    format!("461-{}[{{\"_placeholder\":true,\"num\":0}}]", k),
                    format!("bin{:?}", [4, k as u8]),
                ],
                || {
                    ack.unwrap().binary(true).args().arg(&[k as u8][..]).unwrap().send();
                },
            )
        });
        let store: Arc<Mutex<Vec<AckBuilder>>> = Arc::default();
        let st = store.clone();
        c.set_event_callback("keep", move |_: &Args, ack: Option<AckBuilder>| {
            st.lock().unwrap().push(ack.unwrap())
        });
        mcrt::costed_choices(false);
        push_frames(
            ctx,
            &(0..m.replies)
                .map(|i| Fr::T(event_text("/", Some(1000 + i as u64), "keep", "")))
                .collect::<Vec<_>>(),
        );
        sched::settle();
        mcrt::costed_choices(true);
        if m.blocked {
            ctx.net.credit(Some(choose(3) * 9));
        }
        if m.tweaks {
            ctx.net.with(|n| {
                n.wsplit = Split::Few;
                n.wpend = true;
                n.fpend = true;
            });
        }
        let raw = c.send.clone();
        let c = Arc::new(Mutex::new(c));
        let mut ids = Vec::new();
        for e in 0..m.emitters {
            let c = c.clone();
            let book = book.clone();
            let obs = ctx.obs.clone();
            ids.push(sched::spawn(format!("emitter {}", e), false, move || {
                for k in 0..m.per {
                    let name = format!("e{}.{}", e, k);
                    let bytes = [e as u8, k as u8];
                    let holes: String = (0..m.wide).map(|i| format!(",{{\"_placeholder\":true,\"num\":{}}}", i)).collect();
                    let mut wire = vec![
                        format!("45{}-[{}{}]", m.wide, quote(&name), holes),
                        format!("bin{:?}", [4, bytes[0], bytes[1]]),
                    ];
                    wire.extend((1..m.wide).map(|_| format!("bin{:?}", [4, 9])));
                    let _ = &obs;
                    book.hand(e, wire, || {
                        let mut c = c.lock().unwrap();
                        let mut b = c.emit(&name).binary(true).args().arg(&bytes[..]).unwrap();
                        for _ in 1..m.wide {
                            b = b.arg(&[9u8][..]).unwrap();
                        }
                        b.send();
                    });
                }
            }));
        }
        if m.raw {
            let book = book.clone();
            ids.push(sched::spawn("raw sender", false, move || {
                for k in 0..m.per {
                    let wire = vec![format!("42[\"raw\",{}]", k), format!("bin{:?}", [4, k as u8])];
                    let ms = vec![
                        WsMessage::Text(wire[0].clone()),
                        WsMessage::Binary(vec![4, k as u8]),
                    ];
                    book.hand(50, wire, || {
                        let _ = raw.unbounded_send(ms);
                    });
                }
            }));
        }
        if m.replies > 0 {
            let book = book.clone();
            let hs: Vec<AckBuilder> = std::mem::take(&mut *store.lock().unwrap());
            ids.push(sched::spawn("replier", false, move || {
                for (k, h) in hs.into_iter().enumerate() {
                    if m.wide <= 2 {
                        book.hand(60, vec![format!("43{}[\"r\"]", 1000 + k)], || h.args().arg("r").unwrap().send());
                        continue;
                    }
                    let holes: Vec<String> = (0..m.wide).map(|i| format!("{{\"_placeholder\":true,\"num\":{}}}", i)).collect();
                    let mut wire = vec![format!("46{}-{}[{}]", m.wide, 1000 + k, holes.join(","))];
                    wire.extend((0..m.wide).map(|_| "bin[4, 8]".to_string()));
                    book.hand(60, wire, || {
                        let mut b = h.binary(true).args();
                        for _ in 0..m.wide {
                            b = b.arg(&[8u8][..]).unwrap();
                        }
                        b.send();
                    });
                }
            }));
        }
        let mut fs = Vec::new();
        for i in 0..m.pings {
            fs.push(t("2"));
            // Answers of the connection task itself carry no hand-over time of their own.
            book.0.lock().unwrap().push(Handed {
                who: 91,
                wire: vec!["3".into()],
                begin: 0,
                end: usize::MAX,
            });
            fs.push(Fr::T(event_text("/", Some(i as u64), "now", "")));
        }
        push_frames(ctx, &fs);
        sched::settle();
        if m.blocked {
            // Piecewise.
            for _ in 0..2 {
                ctx.net.credit(Some(5));
                sched::settle();
            }
            ctx.net.credit(None);
        }
        ctx.settle()?;
        for id in ids {
            if !sched::is_done(id) {
                return Err(viol("blocked", "a sending thread did not finish"));
            }
        }
        let got = ctx.net.got();
        check_wire(&got, &book.0.lock().unwrap())?;
        // ping i comes before event i: so do their answers
        let mut pongs = 0;
        let mut acks = 0;
        for g in &got {
            match g {
                Msg::Text(s) if s == "3" => pongs += 1,
                Msg::Text(s) if s.starts_with("461-") => {
                    acks += 1;
                    if pongs < acks {
                        return Err(viol("order", format!("an answer overtook an earlier one: {:?}", shown(&got))));
                    }
                }
                _ => {}
            }
        }
        let mut c = c.lock().unwrap();
        match ctx.close(&mut c) {
            Ok(()) => Ok(dig(&[shown(&got)])),
            Err(e) => Err(viol("result", format!("close reports {}", e))),
        }
    })
}

/// Sequential histories: every way of handing over, with the transport blocked at every point.
fn c13_history(depth: usize) -> Result<u64, Viol> {
    run(&calm(), move |ctx| {
        let mut c = ctx.connect()?;
        let store: Arc<Mutex<Vec<AckBuilder>>> = Arc::default();
        let st = store.clone();
        c.set_event_callback("keep", move |_: &Args, ack: Option<AckBuilder>| {
            st.lock().unwrap().push(ack.unwrap())
        });
        push_frames(
            ctx,
            &(0..depth)
                .map(|i| Fr::T(event_text("/", Some(i as u64), "keep", "")))
                .collect::<Vec<_>>(),
        );
        sched::settle();
        let mut handles: Vec<AckBuilder> = std::mem::take(&mut *store.lock().unwrap());
        handles.reverse();
        let mut want: Vec<String> = Vec::new();
        ctx.net.credit(match choose(4) {
            0 => None,
            1 => Some(0),
            2 => Some(1),
            _ => Some(20),
        });
        let mut blocked_pings = 0;
        let mut acks = 0;
        for i in 0..depth {
            match choose(7) {
                0 => {
                    emit(&mut c, &ctx.obs, "/", &format!("e{}", i), None, false, None);
                    want.push(format!("42[\"e{}\"]", i));
                }
                1 => {
                    c.namespace_emit("/a", "b")
                        .binary(true)
                        .args()
                        .arg(&[i as u8][..])
                        .unwrap()
                        .arg(&(1, crate::val::Val::Bytes(vec![7u8; 2 * (i % 2)])))
                        .unwrap()
                        .send();
                    want.push("452-/a,[\"b\",{\"_placeholder\":true,\"num\":0},[1,{\"_placeholder\":true,\"num\":1}]]".into());
                    want.push(format!("bin{:?}", [4, i as u8]));
                    want.push(["bin[4]", "bin[4, 7, 7]"][i % 2].into());
                }
                2 => {
                    handles.pop().unwrap().binary(true).args().arg(&crate::val::Val::Bytes(vec![3u8; i % 2])).unwrap().send();
                    want.push(format!("461-{}[{{\"_placeholder\":true,\"num\":0}}]", acks));
                    want.push(["bin[4]", "bin[4, 3]"][i % 2].into());
                    acks += 1;
                }
                3 => {
                    ctx.net.text("2");
                    blocked_pings += 1;
                }
                4 => ctx.net.credit(Some(choose(2) * 13)),
                5 => ctx.net.credit(None),
                _ => {
                    let _ = c.send.unbounded_send(vec![WsMessage::Text(format!("4{}", i)), WsMessage::Binary(vec![4, 1])]);
                    want.push(format!("4{}", i));
                    want.push("bin[4, 1]".into());
                }
            }
            sched::settle();
        }
        ctx.net.credit(None);
        ctx.settle()?;
        let got = ctx.net.got();
        let pongs = got.iter().filter(|m| **m == Msg::Text("3".into())).count();
        if pongs != blocked_pings {
            return Err(viol("pongs", format!("{} pongs for {} pings", pongs, blocked_pings)));
        }
        let rest: Vec<String> = shown(&got).into_iter().filter(|s| s != "3").collect();
        eq_list("order", "messages sent", &rest, &want)?;
        // a pong never splits a packet
        for w in shown(&got).windows(2) {
            if w[0] == "3" && w[1].starts_with("bin") {
                return Err(viol("whole", format!("a pong separates a packet: {:?}", shown(&got))));
            }
        }
        match ctx.close(&mut c) {
            Ok(()) => Ok(dig(&[shown(&got)])),
            Err(e) => Err(viol("result", format!("close reports {}", e))),
        }
    })
}

/// Many packets handed over at once, from every source, to a transport that is blocked or not.
fn c13_volume(n: usize) -> Result<u64, Viol> {
    let cfg = WorldCfg {
        max_steps: 10_000 + 300 * n as u64,
        ..calm()
    };
    run(&cfg, move |ctx| {
        let mut c = ctx.connect()?;
        let store: Arc<Mutex<Vec<AckBuilder>>> = Arc::default();
        let st = store.clone();
        c.set_event_callback("keep", move |_: &Args, ack: Option<AckBuilder>| {
            st.lock().unwrap().push(ack.unwrap())
        });
        // The largest number: all sources together, a free and a blocked transport.
        let sources = if n > 10_000 { 3 } else { choose(4) };
        let credit = [None, Some(1_000), Some(0), Some(1)][choose(if n > 10_000 { 2 } else { 4 })];
        let mut b = Vec::new();
        for i in 0..n {
            b.extend(text(&event_text("/", Some(i as u64), "keep", "")));
        }
        ctx.net.push(&b);
        sched::settle();
        let mut handles = std::mem::take(&mut *store.lock().unwrap());
        handles.reverse();
        ctx.net.credit(credit);
        let mut want = Vec::new();
        for i in 0..n {
            let bytes = (i as u32).to_be_bytes();
            let mut att = vec![4];
            att.extend(bytes);
            let att = Msg::Bin(att);
            match if sources == 3 { i % 3 } else { sources } {
                0 => {
                    c.emit("e").binary(true).args().arg(&bytes[..]).unwrap().arg(&bytes[..]).unwrap().send();
                    want.push(Msg::Text("452-[\"e\",{\"_placeholder\":true,\"num\":0},{\"_placeholder\":true,\"num\":1}]".into()));
                    want.extend([att.clone(), att]);
                }
                1 => {
                    let h = handles.pop().unwrap();
                    let id = n - 1 - handles.len();
                    h.binary(true).args().arg(&bytes[..]).unwrap().send();
                    want.push(Msg::Text(format!("461-{}[{{\"_placeholder\":true,\"num\":0}}]", id)));
                    want.push(att);
                }
                _ => {
                    let _ = c.send.unbounded_send(vec![WsMessage::Text(format!("4{}", i)), WsMessage::Binary(vec![4, 1]), WsMessage::Binary(bytes.to_vec())]);
                    want.push(Msg::Text(format!("4{}", i)));
                    want.extend([Msg::Bin(vec![4, 1]), Msg::Bin(bytes.to_vec())]);
                }
            }
        }
        sched::settle();
        ctx.net.credit(Some(10_000));
        sched::settle();
        ctx.net.credit(None);
        ctx.settle()?;
        let got = ctx.net.got();
        if let Some(k) = (0..want.len().max(got.len())).find(|k| want.get(*k) != got.get(*k)) {
            return Err(viol("order", format!("message {} of {} is {:?} instead of {:?}", k, want.len(), got.get(k), want.get(k))));
        }
        match ctx.close(&mut c) {
            Ok(()) => Ok(n as u64),
            Err(e) => Err(viol("result", format!("close reports {}", e))),
        }
    })
}

/// A packet with many attachments from every source, between others.
fn c13_large(sizes: &'static [usize]) -> Result<u64, Viol> {
    let cfg = WorldCfg {
        max_steps: 100_000 + 400 * sizes[sizes.len() - 1] as u64,
        ..calm()
    };
    run(&cfg, move |ctx| {
        let mut c = ctx.connect()?;
        let store: Arc<Mutex<Vec<AckBuilder>>> = Arc::default();
        let st = store.clone();
        c.set_event_callback("keep", move |_: &Args, ack: Option<AckBuilder>| {
            st.lock().unwrap().push(ack.unwrap())
        });
        let n = sizes[choose(sizes.len())];
        let source = choose(3);
        let blocked = choose(2) == 1;
        log_line(|| format!("{} attachments, source {}, transport blocked: {}", n, source, blocked));
        ctx.net.push(&text(&event_text("/", Some(3), "keep", "")));
        sched::settle();
        let h = store.lock().unwrap().pop().ok_or_else(|| viol("handle", "no reply handle"))?;
        if blocked {
            ctx.net.credit(Some(0));
        }
        let each = |i: usize| (i as u32).to_be_bytes();
        let places = |n: usize| (0..n).map(|i| format!("{{\"_placeholder\":true,\"num\":{}}}", i)).collect::<Vec<_>>().join(",");
        c.emit("first").args().send();
        let mut want = vec![Msg::Text("42[\"first\"]".into())];
        match source {
            0 => {
                let mut b = c.emit("e").binary(true).args();
                for i in 0..n {
                    b.arg_ref(&each(i)[..]).unwrap();
                }
                b.send();
                want.push(Msg::Text(format!("45{}-[\"e\",{}]", n, places(n))));
            }
            1 => {
                let mut b = h.binary(true).args();
                for i in 0..n {
                    b.arg_ref(&each(i)[..]).unwrap();
                }
                b.send();
                want.push(Msg::Text(format!("46{}-3[{}]", n, places(n))));
            }
            _ => {
                let mut v = vec![WsMessage::Text("4x".into())];
                for i in 0..n {
                    v.push(WsMessage::Binary([&[4u8][..], &each(i)].concat()));
                }
                let _ = c.send.unbounded_send(v);
                want.push(Msg::Text("4x".into()));
            }
        }
        want.extend((0..n).map(|i| Msg::Bin([&[4u8][..], &each(i)].concat())));
        ctx.net.text("2");
        c.emit("last").args().send();
        want.push(Msg::Text("42[\"last\"]".into()));
        sched::settle();
        ctx.net.credit(None);
        ctx.settle()?;
        let got = ctx.net.got();
        let pong = got.iter().position(|m| *m == Msg::Text("3".into()));
        let mut got = got;
        match pong {
            Some(k) => {
                got.remove(k);
                // not within the packet
                if (2..2 + n).contains(&k) {
                    return Err(viol("order", format!("the heartbeat's answer is message {} of the packet", k - 1)));
                }
            }
            None => return Err(viol("order", "the ping was not answered")),
        }
        if let Some(k) = (0..want.len().max(got.len())).find(|k| want.get(*k) != got.get(*k)) {
            return Err(viol("order", format!("{} attachments: message {} of {} is {:?}", n, k, want.len(), got.get(k).map(|m| m.show().chars().take(80).collect::<String>()))));
        }
        match ctx.close(&mut c) {
            Ok(()) => Ok(n as u64),
            Err(e) => Err(viol("result", format!("close reports {}", e))),
        }
    })
}

pub fn c13(tier: Tier) -> Vec<Scenario> {
    let z = Mix {
        emitters: 0,
        per: 0,
        raw: false,
        replies: 0,
        pings: 0,
        blocked: false,
        tweaks: false,
        wide: 2,
    };
    let mut v = Vec::new();
    let d = tier.pick(5, 6);
    v.push(scenario(format!("histories of {}", d), tier.pick(0, 1), move || c13_history(d)));
    v.push(idling(scenario(format!("histories of {}", d - 1), 0, move || c13_history(d - 1))));
    v.push(buffering(scenario(format!("histories of {}", d), tier.pick(0, 1), move || c13_history(d))));
    for n in tier.pick(&[2_000, 66_000][..], &[2_000, 66_000, 300_000][..]) {
        v.push(scenario(format!("{} packets at once", n), 0, move || c13_volume(*n)));
    }
    let n = tier.pick(&[1, 9, 10, 99, 300, 70_000][..], &[1, 9, 10, 99, 255, 256, 257, 300, 1_000, 65_535, 65_536, 65_537, 200_000][..]);
    v.push(scenario("packets of many attachments", 0, move || c13_large(n)));
    for (name, m, pre, q, th) in [
        ("2 emitters", Mix { emitters: 2, per: 2, ..z }, true, 4, 5),
        ("emitter and raw sender", Mix { emitters: 1, per: 2, raw: true, ..z }, true, 4, 5),
        ("emitter and heartbeat", Mix { emitters: 1, per: 2, pings: 2, ..z }, true, 3, 4),
        ("replies and heartbeat", Mix { replies: 2, pings: 2, ..z }, true, 3, 4),
        (
            "emitter of 12 attachments, replies and heartbeat",
            Mix {
                emitters: 1,
                per: 1,
                replies: 2,
                pings: 1,
                wide: 12,
                ..z
            },
            true,
            3,
            4,
        ),
        (
            "emitter of 300 attachments, replies and heartbeat",
            Mix {
                emitters: 1,
                per: 1,
                replies: 2,
                pings: 1,
                wide: 300,
                ..z
            },
            true,
            2,
            3,
        ),
        (
            "all sources",
            Mix {
                emitters: 2,
                per: 1,
                raw: true,
                replies: 1,
                pings: 1,
                ..z
            },
            true,
            3,
            4,
        ),
        (
            "all sources, blocked transport",
            Mix {
                emitters: 1,
                per: 1,
                raw: true,
                replies: 1,
                pings: 1,
                blocked: true,
                ..z
            },
            true,
            3,
            4,
        ),
        (
            "all sources, unready transport",
            Mix {
                emitters: 1,
                per: 2,
                raw: true,
                replies: 1,
                pings: 1,
                tweaks: true,
                ..z
            },
            false,
            2,
            3,
        ),
    ] {
        v.push(scenario(name, tier.pick(q, th), move || c13_run(m, pre)));
        if m.blocked || m.tweaks {
            v.push(buffering(scenario(name, tier.pick(2, th), move || c13_run(m, pre))));
        }
    }
    v
}

// ---------------------------------------------------------------- C14

fn c14_history(len: usize) -> Result<u64, Viol> {
    run(&still(), move |ctx| {
        let mut c = ctx.connect()?;
        let mut reg = Reg::default();
        crate::client_a::set_handler(&mut c, &mut reg, &ctx.obs, "/", "x", "h");
        let blocked = choose(3);
        ctx.net.credit([None, Some(0), Some(3)][blocked]);
        ctx.net.with(|n| {
            n.rsplit = Split::Few;
            n.rpend = true;
            n.wpend = true;
        });
        let settle_between = choose(2) == 1;
        let mut fs: Vec<Fr> = Vec::new();
        let mut need = 0;
        for i in 0..len {
            let new = if need > 0 {
                // inside a binary packet: its attachments, or anything that is not a message
                match choose(5) {
                    0 => {
                        need -= 1;
                        vec![a(&[i as u8])]
                    }
                    1 => vec![t("2")],
                    2 => vec![t("2"), t("2"), t("2")],
                    3 => vec![t("3")],
                    _ => vec![Fr::WsPing],
                }
            } else {
                match choose(7) {
                    0 => vec![t("2")],
                    1 => vec![t("2"), t("2"), t("2")],
                    2 => event_frames(0, "/", "x", i as u64),
                    3 => {
                        need = 2;
                        vec![t("452-[\"x\",{\"_placeholder\":true,\"num\":0},{\"_placeholder\":true,\"num\":1}]")]
                    }
                    4 => vec![t("3")],
                    5 => vec![Fr::WsPing, Fr::WsPong],
                    _ => vec![t("40"), t("41/a,")],
                }
            };
            push_frames(ctx, &new);
            if settle_between {
                sched::settle();
            }
            fs.extend(new);
        }
        sched::settle();
        ctx.net.credit(None);
        ctx.settle()?;
        let e = expect(&fs, &reg);
        let got = ctx.net.got();
        let pongs = got.iter().filter(|m| **m == Msg::Text("3".into())).count();
        if pongs != e.pongs {
            return Err(viol("pongs", format!("{} pongs for {} pings", pongs, e.pongs)));
        }
        if let Some(m) = got
            .iter()
            .find(|m| !matches!(m, Msg::Pong(_)) && **m != Msg::Text("3".into()))
        {
            return Err(viol("other", format!("the client sent {}", m.show())));
        }
        eq_list("calls", "handlers called", &ctx.obs.get(), &e.calls)?;
        let r = ctx.close(&mut c);
        if need == 0 {
            if let Err(e) = r {
                return Err(viol("result", format!("close reports {}", e)));
            }
        }
        Ok(dig(&[e.calls, vec![e.pongs.to_string()]]))
    })
}

/// A long burst while blocked, and pings until the very end of the session.
fn c14_burst(sizes: &'static [usize]) -> Result<u64, Viol> {
    let cfg = WorldCfg {
        max_steps: 5_000_000,
        ..still()
    };
    run(&cfg, move |ctx| {
        let mut c = ctx.connect()?;
        let n = sizes[choose(sizes.len())];
        ctx.net.credit([None, Some(0), Some(1), Some(8)][choose(4)]);
        let mut b = Vec::new();
        for _ in 0..n {
            b.extend(text("2"));
        }
        ctx.net.push(&b);
        sched::settle();
        let emit_too = choose(2) == 1;
        if emit_too {
            emit(&mut c, &ctx.obs, "/", "e", None, true, None);
        }
        sched::settle();
        ctx.net.credit(Some(11));
        sched::settle();
        ctx.net.credit(None);
        ctx.settle()?;
        let got = ctx.net.got();
        let pongs = got.iter().filter(|m| **m == Msg::Text("3".into())).count();
        if pongs != n {
            return Err(viol("pongs", format!("{} pongs for {} pings", pongs, n)));
        }
        if got.len() != n + if emit_too { 2 } else { 0 } {
            return Err(viol("other", format!("the client sent {:?}", shown(&got))));
        }
        match ctx.close(&mut c) {
            Ok(()) => Ok(n as u64),
            Err(e) => Err(viol("result", format!("close reports {}", e))),
        }
    })
}

/// Pings in any of the gaps of binary packets with any number of attachments, quick or slow.
fn c14_gaps(most: usize, many: Option<usize>) -> Result<u64, Viol> {
    run(&still(), move |ctx| {
        let mut c = ctx.connect()?;
        let mut reg = Reg::default();
        crate::client_a::set_handler(&mut c, &mut reg, &ctx.obs, "/", "x", "h");
        crate::client_a::set_handler(&mut c, &mut reg, &ctx.obs, "/n", "x", "hn");
        let n = many.unwrap_or_else(|| choose(most + 1));
        let ns = ["", "/n,", "/other,"][choose(3)];
        let id = ["", "7"][choose(2)];
        let slots: Vec<String> = (0..n).map(|i| format!(",{{\"_placeholder\":true,\"num\":{}}}", i)).collect();
        let head = t(&format!("45{}-{}{}[\"x\"{}]", n, ns, id, slots.concat()));
        let what = choose(4);
        let pause = choose(3);
        let two = many.is_none() && choose(2) == 1;
        let mut fs: Vec<Fr> = Vec::new();
        let mut send = |new: Vec<Fr>| {
            push_frames(ctx, &new);
            match pause {
                0 => (),
                1 => sched::settle(),
                _ => sched::pass(secs(40.0)),
            }
            fs.extend(new);
        };
        // With two packets, the gaps of the second are filled as those of the first are.
        let gaps: Vec<bool> = match many {
            None => (0..=n).map(|_| choose(2) == 1).collect(),
            Some(_) => {
                let at = choose(n + 2);
                (0..=n).map(|i| i == at || at > n).collect()
            }
        };
        for _ in 0..if two { 2 } else { 1 } {
            send(vec![head.clone()]);
            for i in 0..=n {
                if gaps[i] {
                    send(match what {
                        0 => vec![t("2")],
                        1 => vec![t("2"), t("3"), t("2")],
                        2 => vec![Fr::WsPing, t("2")],
                        _ => vec![t("2"); 5],
                    });
                }
                if i < n {
                    send(vec![a(&[i as u8; 3])]);
                }
            }
        }
        sched::settle();
        ctx.settle()?;
        let e = expect(&fs, &reg);
        let got = ctx.net.got();
        let pongs = got.iter().filter(|m| **m == Msg::Text("3".into())).count();
        if pongs != e.pongs {
            return Err(viol("pongs", format!("{} pongs for {} pings", pongs, e.pongs)));
        }
        if let Some(m) = got.iter().find(|m| !matches!(m, Msg::Pong(_)) && **m != Msg::Text("3".into())) {
            return Err(viol("other", format!("the client sent {}", m.show())));
        }
        eq_list("calls", "handlers called", &ctx.obs.get(), &e.calls)?;
        match ctx.close(&mut c) {
            Ok(()) => Ok(dig(&[e.calls, vec![e.pongs.to_string()]])),
            Err(e) => Err(viol("result", format!("close reports {}", e))),
        }
    })
}

pub fn c14(tier: Tier) -> Vec<Scenario> {
    let gaps = tier.pick(5, 8);
    let l = tier.pick(4, 5);
    let large = tier.pick(&[5_000usize, 70_000][..], &[5_000, 70_000, 200_000][..]);
    vec![
        scenario(format!("histories of {}", l), tier.pick(1, 1), move || c14_history(l)),
        idling(scenario(format!("histories of {}", l), 0, move || c14_history(l))),
        buffering(scenario(format!("histories of {}", l), 0, move || c14_history(l))),
        scenario("histories of 2, transport", tier.pick(2, 3), || c14_history(2)),
        buffering(scenario("histories of 2, transport", tier.pick(2, 3), || c14_history(2))),
        scenario("gaps", 0, move || c14_gaps(gaps, None)),
        scenario("gaps among many", 0, || c14_gaps(0, Some(70))),
        scenario("bursts", 1, || c14_burst(&[1, 2, 50, 500])),
        scenario("large bursts", 0, move || c14_burst(large)),
    ]
}

// ---------------------------------------------------------------- C15

#[derive(Clone, Copy, Debug, PartialEq)]
enum HsCase {
    At(f64),
    Never,
    Eof,
    Garbage,
    Status,
    WrongKey,
    PartialNever,
    PartialEof,
    ReadErr,
    WriteErr,
    WriteBlocked,
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum OpenCase {
    /// Right behind the handshake response.
    Behind,
    /// At an absolute time, at least that of the handshake.
    At(f64),
    Never,
    Eof(f64),
    WsClose(f64),
    WsCloseOnly(f64),
    BadJson,
    ArrayTextFirst,
    PingFirst,
    PongFirst,
    CloseFirst,
    EventFirst,
    BinaryFirst,
    EmptyText,
    Unknown,
    BadFrame,
    ReadErr(f64),
    Fragmented,
    WsPingFirst(f64),
    Twice,
}

fn c15_run(spawn_fails: bool) -> Result<u64, Viol> {
    run(&calm(), move |ctx| {
        let hs = [
            HsCase::At(0.0),
            HsCase::At(6.0),
            HsCase::At(9.5),
            HsCase::At(12.0),
            HsCase::Never,
            HsCase::Eof,
            HsCase::Garbage,
            HsCase::Status,
            HsCase::WrongKey,
            HsCase::PartialNever,
            HsCase::PartialEof,
            HsCase::ReadErr,
            HsCase::WriteErr,
            HsCase::WriteBlocked,
        ];
        let h = hs[choose(if spawn_fails { 2 } else { hs.len() })];
        let ht = match h {
            HsCase::At(t) => Some(t),
            _ => None,
        };
        let opens = [
            OpenCase::Behind,
            OpenCase::At(0.5),
            OpenCase::At(7.0),
            OpenCase::At(9.9),
            OpenCase::At(10.0),
            OpenCase::At(10.5),
            OpenCase::At(15.0),
            OpenCase::Never,
            OpenCase::Eof(0.0),
            OpenCase::Eof(3.0),
            OpenCase::WsClose(0.0),
            OpenCase::WsClose(3.0),
            OpenCase::WsCloseOnly(1.0),
            OpenCase::BadJson,
            OpenCase::ArrayTextFirst,
            OpenCase::PingFirst,
            OpenCase::PongFirst,
            OpenCase::CloseFirst,
            OpenCase::EventFirst,
            OpenCase::BinaryFirst,
            OpenCase::EmptyText,
            OpenCase::Unknown,
            OpenCase::BadFrame,
            OpenCase::ReadErr(2.0),
            OpenCase::Fragmented,
            OpenCase::WsPingFirst(1.0),
            OpenCase::Twice,
        ];
        let o = if ht.is_some() { opens[choose(opens.len())] } else { OpenCase::Behind };
        log_line(|| format!("handshake {:?}, open {:?}", h, o));
        // What arrives with the handshake, and what later.
        let mut behind: Vec<u8> = Vec::new();
        let mut ok = None;
        let mut may = false;
        let net = ctx.net.clone();
        let at = |t: f64, f: Box<dyn FnOnce(&NetH)>| {
            let net = net.clone();
            sched::at(secs(t), move || f(&net));
        };
        if let Some(h) = ht {
            match o {
                OpenCase::Behind => {
                    behind = text(OPEN);
                    ok = Some(h);
                }
                OpenCase::At(t) => {
                    let t = t.max(h + 0.1);
                    at(t, Box::new(|n| n.text(OPEN)));
                    ok = Some(t);
                    // at the very moment of the timeout: either
                    may = t == 10.0;
                }
                OpenCase::Never => (),
                OpenCase::Eof(d) => at(h + d, Box::new(|n| n.eof())),
                OpenCase::WsClose(d) => at(
                    h + d,
                    Box::new(|n| {
                        n.push(&close_frame(Some(1001)));
                        n.eof();
                    }),
                ),
                OpenCase::WsCloseOnly(d) => at(h + d, Box::new(|n| n.push(&close_frame(None)))),
                OpenCase::BadJson => behind = text("0{\"sid\":1}"),
                OpenCase::ArrayTextFirst => behind = text("0"),
                OpenCase::PingFirst => behind = [text("2"), text(OPEN)].concat(),
                OpenCase::PongFirst => behind = [text("3"), text(OPEN)].concat(),
                OpenCase::CloseFirst => behind = [text("1"), text(OPEN)].concat(),
                OpenCase::EventFirst => behind = [text("42[\"x\"]"), text(OPEN)].concat(),
                OpenCase::BinaryFirst => behind = [att(b"x"), text(OPEN)].concat(),
                OpenCase::EmptyText => behind = [text(""), text(OPEN)].concat(),
                OpenCase::Unknown => behind = [text("7"), text(OPEN)].concat(),
                OpenCase::BadFrame => behind = [vec![0xff, 0xff, 0, 0], text(OPEN)].concat(),
                OpenCase::ReadErr(d) => at(
                    h + d,
                    Box::new(|n| n.with(|n| n.read_err = Some(std::io::ErrorKind::ConnectionReset))),
                ),
                OpenCase::Fragmented => {
                    behind = Fr::T(OPEN.into()).fragmented();
                    ok = Some(h);
                }
                OpenCase::WsPingFirst(d) => {
                    behind = frame(9, b"p");
                    at(h + d, Box::new(|n| n.text(OPEN)));
                    ok = Some(h + d);
                }
                OpenCase::Twice => {
                    // Usable first, then the second open ends the connection.
                    behind = [text(OPEN), text(OPEN)].concat();
                    may = true;
                }
            }
        }
        match h {
            HsCase::At(t) if t == 0.0 => ctx.net.with(|n| n.hs = Hs::Accept(behind)),
            HsCase::At(t) => {
                ctx.net.with(|n| n.hs = Hs::Wait);
                at(t, Box::new(move |n| n.accept(&behind)));
            }
            HsCase::Never => ctx.net.with(|n| n.hs = Hs::Wait),
            HsCase::Eof => ctx.net.with(|n| {
                n.hs = Hs::Wait;
                n.eof = true
            }),
            HsCase::Garbage => ctx.net.with(|n| n.hs = Hs::Raw(b"\x00\x01garbage\r\n\r\n".to_vec())),
            HsCase::Status => ctx.net.with(|n| n.hs = Hs::Raw(b"HTTP/1.1 404 Not Found\r\n\r\n".to_vec())),
            HsCase::WrongKey => ctx.net.with(|n| n.hs = Hs::WrongKey),
            HsCase::PartialNever => ctx.net.with(|n| n.hs = Hs::Raw(b"HTTP/1.1 101 Switch".to_vec())),
            HsCase::PartialEof => ctx.net.with(|n| {
                n.hs = Hs::Raw(b"HTTP/1.1 101 Switch".to_vec());
                n.eof = true
            }),
            HsCase::ReadErr => ctx.net.with(|n| {
                n.hs = Hs::Wait;
                n.read_err = Some(std::io::ErrorKind::ConnectionReset)
            }),
            HsCase::WriteErr => ctx.net.with(|n| n.write_err = Some(std::io::ErrorKind::BrokenPipe)),
            HsCase::WriteBlocked => ctx.net.credit(Some(10)),
        }
        ctx.net.with(|n| {
            n.rsplit = Split::Few;
            n.wsplit = Split::Few;
            n.rpend = true;
            n.wpend = true;
            n.fpend = true;
        });
        let sp = Spawner {
            tasks: ctx.spawner.tasks.clone(),
            fail: spawn_fails,
        };
        let r = sched::block_on("connecting", Client::from_stream("ws://h/", ctx.net.stream(), &sp));
        let now = sched::now();
        mcrt::costed_choices(false);
        let limit = secs(10.0);
        let expect_ok = matches!(ok, Some(t) if t < 10.0) && !spawn_fails;
        let line = format!("{:?} {:?}: {} at {:?}", h, o, if r.is_ok() { "ok" } else { "error" }, now);
        log_line(|| line.clone());
        if now > limit {
            return Err(viol("late", format!("{}: the timeout is 10 s", line)));
        }
        match r {
            Ok(mut c) => {
                if !expect_ok && !may {
                    return Err(viol("ok", format!("{}: an error was due", line)));
                }
                if may {
                    return Ok(dig(&[vec![line]]));
                }
                // usable
                let mut reg = Reg::default();
                crate::client_a::set_handler(&mut c, &mut reg, &ctx.obs, "/", "x", "h");
                ctx.net.text(r#"42["x",1]"#);
                emit(&mut c, &ctx.obs, "/", "e", None, false, None);
                ctx.settle()?;
                eq_list("usable", "handlers called", &ctx.obs.get(), &["h#1 [\"x\",1]".to_string()])?;
                if !ctx.net.got().contains(&Msg::Text("42[\"e\"]".into())) {
                    return Err(viol("usable", format!("the emission was not sent: {:?}", shown(&ctx.net.got()))));
                }
                if let Err(e) = ctx.close(&mut c) {
                    return Err(viol("usable", format!("close reports {}", e)));
                }
            }
            Err(e) => {
                if expect_ok {
                    return Err(viol("err", format!("{}: {}", line, e)));
                }
                // An error prints.
                let _ = (e.to_string(), format!("{:?}", e));
                if let Error::Timeout(_) = e {
                    if now < limit {
                        return Err(viol("early", format!("{}: reported as a timeout", line)));
                    }
                }
                drop(e);
                sched::settle();
                if !ctx.task_done() {
                    return Err(viol("task", format!("{}: the connection task is still there", line)));
                }
                if !ctx.net.dropped() {
                    return Err(viol("transport", format!("{}: the transport was not released", line)));
                }
                if sched::pending_timers() > 0 {
                    return Err(viol("timer", format!("{}: a timer is left", line)));
                }
            }
        }
        Ok(dig(&[vec![line]]))
    })
}

/// Open packets of every form: the client is usable, whatever they say.
fn c15_opens() -> Result<u64, Viol> {
    static FORMS: std::sync::OnceLock<Vec<Vec<String>>> = std::sync::OnceLock::new();
    let forms = FORMS.get_or_init(|| {
        let open = |sid: &str, i: &str, t: &str, x: &str| format!("0{{\"sid\":{},{}\"pingInterval\":{},\"pingTimeout\":{}}}", sid, x, i, t);
        let mut v = vec![
            "0{\"pingTimeout\":0,\"pingInterval\":0,\"sid\":\"\"}".to_string(),
            "0 {\n\t\"pingTimeout\" : 5000 ,\r\n \"sid\" : \"x\" , \"pingInterval\" : 25000 } ".to_string(),
        ];
        for e in crate::vals::edges() {
            let e = e.to_string();
            v.push(open("\"s\"", &e, &e, ""));
            v.push(open("\"s\"", "25000", &e, ""));
            v.push(open("\"s\"", &e, "5000", "\"upgrades\":[],"));
        }
        for w in crate::vals::words() {
            v.push(open(&crate::reference::quote(w), "25000", "5000", ""));
        }
        for x in [
            "\"upgrades\":[\"websocket\"],",
            "\"upgrades\":null,",
            "\"maxPayload\":1000000,",
            "\"maxPayload\":0,",
            "\"a\":{\"b\":[1,{\"c\":null}],\"sid\":1},",
            "\"\\u0041\":\"\\u0000\",",
            "\"n\":1e300,",
            "\"n\":-0.0,",
            "\"sid2\":\"x\",",
            "\"\":\"\",",
        ] {
            v.push(open("\"s\"", "25000", "5000", x));
        }
        v.chunks(24).map(|c| c.to_vec()).collect()
    });
    let chunk = &forms[choose(forms.len())];
    let behind = choose(2) == 0;
    let mut d = 0;
    for open in chunk {
        let open = open.clone();
        log_line(|| crate::codec::short(&open));
        d ^= run(&calm(), move |ctx| {
            mcrt::explore::step();
            let key = || format!("open:{}", crate::codec::short(&open)).replace(char::is_whitespace, "_");
            if behind {
                ctx.net.with(|n| n.hs = Hs::Accept(text(&open)));
            } else {
                ctx.net.with(|n| n.hs = Hs::Accept(Vec::new()));
                let (net, o) = (ctx.net.clone(), open.clone());
                sched::at(secs(3.0), move || net.text(&o));
            }
            let r = sched::block_on("connecting", Client::from_stream("ws://h/", ctx.net.stream(), &ctx.spawner));
            let mut c = match r {
                Ok(c) => c,
                Err(e) => return Err(viol(key(), format!("connecting fails with {}", e))),
            };
            let mut reg = Reg::default();
            crate::client_a::set_handler(&mut c, &mut reg, &ctx.obs, "/", "x", "h");
            let mut sent = Vec::new();
            for i in 0..3 {
                ctx.net.text(r#"42["x",1]"#);
                ctx.net.text("2");
                ctx.settle()?;
                emit(&mut c, &ctx.obs, "/", "e", None, false, None);
                ctx.settle()?;
                sent.extend(["3".to_string(), "42[\"e\"]".to_string()]);
                // an idle connection stays open
                sched::pass(secs([1.0, 100.0, 0.0][i]));
                ctx.settle()?;
            }
            let want: Vec<String> = (1..4).map(|i| format!("h#{} [\"x\",1]", i)).collect();
            eq_list(&key(), "handlers called", &ctx.obs.get(), &want)?;
            let got: Vec<String> = ctx
                .net
                .got()
                .iter()
                .map(|m| match m {
                    Msg::Text(t) => t.clone(),
                    o => format!("{:?}", o),
                })
                .collect();
            eq_list(&key(), "messages sent", &got, &sent)?;
            ctx.close(&mut c).map_err(|e| viol(key(), format!("close reports {}", e)))?;
            Ok(dig(&[want]))
        })?;
    }
    Ok(d)
}

/// URLs of every kind, on a server that does not do its part: an error no later than the timeout.
fn c15_urls() -> Result<u64, Viol> {
    run(&calm(), move |ctx| {
        let url = ["wss://h.example/", "https://h.example:8443/x?y=z", "wss://1.2.3.4/", "wss://[::1]:1/", "ws://h.example/p", "http://[::1]/"][choose(6)];
        let when = [0.0, 3.0, 9.5][choose(3)];
        let what = choose(11);
        log_line(|| format!("{} server {} at {}", url, what, when));
        let net = ctx.net.clone();
        ctx.net.with(|n| {
            n.hs = Hs::Wait;
            n.rsplit = Split::Few;
            n.wsplit = Split::Few;
            n.rpend = true;
            n.wpend = true;
            n.fpend = true;
        });
        let push = |b: &'static [u8], eof: bool| {
            let net = net.clone();
            sched::at(secs(when), move || {
                net.push(b);
                if eof {
                    net.eof();
                }
            });
        };
        match what {
            0 => (),
            1 => push(b"", true),
            2 => push(b"\x00\x01garbage\r\n\r\n", false),
            3 => push(b"HTTP/1.1 400 Bad Request\r\nContent-Length: 0\r\n\r\n", false),
            4 => push(&[21, 3, 3, 0, 2, 2, 40], false),
            5 => push(&[21, 3, 3, 0, 2, 1, 0], true),
            6 => push(&[22, 3, 3, 0, 100, 2, 0, 0, 96], false),
            7 => push(&[22, 3, 3], true),
            8 => {
                let net = net.clone();
                sched::at(secs(when), move || net.with(|n| n.read_err = Some(std::io::ErrorKind::ConnectionReset)));
            }
            9 => ctx.net.with(|n| n.write_err = Some(std::io::ErrorKind::BrokenPipe)),
            _ => ctx.net.credit(Some((when * 10.0) as usize)),
        }
        let via = choose(2) == 1;
        let r = if via {
            let net = ctx.net.clone();
            let connect = move |_: String, _: u16| {
                let s = net.stream();
                async move { Ok::<_, std::io::Error>(s) }
            };
            sched::block_on("connecting", Client::connect(url, connect, &ctx.spawner))
        } else {
            sched::block_on("connecting", Client::from_stream(url, ctx.net.stream(), &ctx.spawner))
        };
        let now = sched::now();
        mcrt::costed_choices(false);
        let line = format!("{} server {} at {}: {} at {:?}", url, what, when, if r.is_ok() { "ok" } else { "error" }, now);
        log_line(|| line.clone());
        if now > secs(10.0) {
            return Err(viol("late", format!("{}: the timeout is 10 s", line)));
        }
        match r {
            Ok(_) => return Err(viol("ok", format!("{}: an error was due", line))),
            Err(e) => {
                let _ = (e.to_string(), format!("{:?}", e));
                if let (Error::Timeout(_), true) = (&e, now < secs(10.0)) {
                    return Err(viol("early", format!("{}: reported as a timeout", line)));
                }
            }
        }
        sched::settle();
        if !ctx.task_done() {
            return Err(viol("task", format!("{}: the connection task is still there", line)));
        }
        if !ctx.net.dropped() {
            return Err(viol("transport", format!("{}: the transport was not released", line)));
        }
        if sched::pending_timers() > 0 {
            return Err(viol("timer", format!("{}: a timer is left", line)));
        }
        Ok(dig(&[vec![line]]))
    })
}

/// The future returned by connecting is dropped at some point: nothing may remain.
fn c15_abandon() -> Result<u64, Viol> {
    run(&calm(), move |ctx| {
        let stage = choose(3);
        ctx.net.with(|n| {
            n.hs = match stage {
                0 => Hs::Wait,
                1 => Hs::Accept(Vec::new()),
                _ => Hs::Raw(b"HTTP/1.1 101 Sw".to_vec()),
            };
            n.rsplit = Split::Few;
            n.rpend = true;
            n.wpend = true;
        });
        let fut: std::pin::Pin<Box<dyn std::future::Future<Output = _>>> =
            Box::pin(Client::from_stream("ws://h/", ctx.net.stream(), &ctx.spawner));
        // poll a few times, then give up
        let n = choose(4);
        let mut left = n + 1;
        let r = sched::block_on("connecting for a while", Abandon { fut: Some(fut), left: &mut left });
        // What the server sends may arrive before the task notices.
        match choose(4) {
            0 => (),
            1 => ctx.net.text(OPEN),
            2 => push_frames(ctx, &[t(OPEN), t("42[\"x\"]"), t("2")]),
            _ => push_frames(ctx, &[t("42[\"x\"]")]),
        }
        sched::settle();
        if r.is_none() {
            if !ctx.task_done() {
                return Err(viol("abandon-task", "the connection task outlives the abandoned attempt"));
            }
            if !ctx.net.dropped() {
                return Err(viol("abandon-transport", "the transport outlives the abandoned attempt"));
            }
        }
        Ok(stage as u64)
    })
}

pub(crate) struct Abandon<'a, T> {
    pub(crate) fut: Option<std::pin::Pin<Box<dyn std::future::Future<Output = T> + 'a>>>,
    pub(crate) left: &'a mut usize,
}
impl<'a, T> std::future::Future for Abandon<'a, T> {
    type Output = Option<T>;
    fn poll(mut self: std::pin::Pin<&mut Self>, cx: &mut std::task::Context<'_>) -> std::task::Poll<Option<T>> {
        use std::task::Poll;
        if *self.left == 0 {
            self.fut = None;
            return Poll::Ready(None);
        }
        *self.left -= 1;
        match self.fut.as_mut().unwrap().as_mut().poll(cx) {
            Poll::Ready(v) => Poll::Ready(Some(v)),
            Poll::Pending => {
                sched::defer(cx.waker().clone());
                Poll::Pending
            }
        }
    }
}

pub fn c15(tier: Tier) -> Vec<Scenario> {
    vec![
        scenario("handshake and open cases", tier.pick(3, 4), || c15_run(false)),
        buffering(scenario("handshake and open cases", tier.pick(2, 3), || c15_run(false))),
        scenario("no task can be spawned", tier.pick(3, 4), || c15_run(true)),
        scenario("attempt abandoned", tier.pick(4, 5), c15_abandon),
        scenario("open packets of every form", 0, c15_opens),
        scenario("URLs of every kind", tier.pick(2, 3), c15_urls),
    ]
}

// ---------------------------------------------------------------- C16

#[derive(Clone, Copy, Debug, PartialEq)]
enum Before {
    Nothing,
    /// A packet the client must reject.
    BadPacket,
    Reset,
    ServerClosedEof,
    ServerCloseFrame,
    /// The server closes, and keeps the stream open for 5 seconds, or forever.
    ServerLingers(bool),
    EngineClose,
    HalfBinary,
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Answer {
    EchoEof,
    EventsThenEcho,
    EchoLateEof,
    EchoOnly,
    EofOnly,
    Nothing,
    EventsLateThenEcho,
    BadThenEcho,
    ResetAfter,
    PingThenEcho,
}

fn c16_run(kind: usize) -> Result<u64, Viol> {
    run(&calm(), move |ctx| {
        let mut c = ctx.connect()?;
        let mut reg = Reg::default();
        crate::client_a::set_handler(&mut c, &mut reg, &ctx.obs, "/", "x", "h");
        let befores = [
            Before::Nothing,
            Before::BadPacket,
            Before::Reset,
            Before::ServerClosedEof,
            Before::ServerCloseFrame,
            Before::ServerLingers(false),
            Before::ServerLingers(true),
            Before::EngineClose,
            Before::HalfBinary,
        ];
        let answers = [
            Answer::EchoEof,
            Answer::EventsThenEcho,
            Answer::EchoLateEof,
            Answer::EchoOnly,
            Answer::EofOnly,
            Answer::Nothing,
            Answer::EventsLateThenEcho,
            Answer::BadThenEcho,
            Answer::ResetAfter,
            Answer::PingThenEcho,
        ];
        let before = if kind == 0 { befores[choose(befores.len())] } else { Before::Nothing };
        let answer = answers[choose(answers.len())];
        let queued = choose(4);
        // 0: free, 1: blocked and released at 3 s, 2: never released, 3: blocked after a few bytes
        let credit = if kind == 0 { choose(4) } else { 0 };
        log_line(|| format!("before {:?}, answer {:?}, {} packets queued, transport {}", before, answer, queued, credit));
        let mut fs: Vec<Fr> = Vec::new();
        match before {
            Before::Nothing => (),
            Before::BadPacket => fs.push(t("42[")),
            Before::HalfBinary => fs.push(t("451-[\"x\",{\"_placeholder\":true,\"num\":0}]")),
            Before::EngineClose => fs.push(t("1")),
            Before::Reset => ctx.net.with(|n| n.read_err = Some(std::io::ErrorKind::ConnectionReset)),
            Before::ServerClosedEof => {
                ctx.net.server_close(Some(1000));
                ctx.net.eof();
            }
            Before::ServerCloseFrame => ctx.net.server_close(Some(1000)),
            Before::ServerLingers(end) => {
                ctx.net.with(|n| n.on_close = OnClose::Nothing);
                ctx.net.server_close(None);
                if end {
                    let net = ctx.net.clone();
                    sched::at(secs(5.0), move || net.eof());
                }
            }
        }
        push_frames(ctx, &fs);
        mcrt::costed_choices(false);
        sched::settle();
        mcrt::costed_choices(true);
        let evs = |n: usize, tag: u64| -> Vec<Fr> { (0..n).flat_map(|i| event_frames(i % 3, "/", "x", tag + i as u64)).collect() };
        let bytes = |f: &[Fr]| f.iter().flat_map(|f| f.bytes()).collect::<Vec<u8>>();
        let mut after: Vec<Fr> = Vec::new();
        let net = ctx.net.clone();
        ctx.net.with(|n| {
            n.on_close = match answer {
                Answer::EchoEof => OnClose::Echo(Vec::new()),
                Answer::EventsThenEcho => {
                    after = evs(3, 1);
                    OnClose::Echo(bytes(&after))
                }
                Answer::EchoLateEof => {
                    let net = net.clone();
                    sched::at(secs(5.0), move || net.eof());
                    OnClose::EchoOnly
                }
                Answer::EchoOnly => OnClose::EchoOnly,
                Answer::EofOnly => OnClose::Eof,
                Answer::Nothing => OnClose::Nothing,
                Answer::EventsLateThenEcho => {
                    after = evs(3, 1);
                    let (b, net) = (bytes(&after), net.clone());
                    sched::at(secs(4.0), move || {
                        net.push(&b);
                        net.push(&close_frame(Some(1000)));
                        net.eof();
                    });
                    OnClose::Nothing
                }
                Answer::BadThenEcho => {
                    after = vec![t("4x")];
                    OnClose::Echo(bytes(&after))
                }
                Answer::ResetAfter => {
                    let net = net.clone();
                    sched::at(secs(2.0), move || net.with(|n| n.read_err = Some(std::io::ErrorKind::ConnectionReset)));
                    OnClose::Nothing
                }
                Answer::PingThenEcho => {
                    after = [vec![t("2")], evs(1, 1)].concat();
                    OnClose::Echo(bytes(&after))
                }
            }
        });
        ctx.net.with(|n| {
            n.credit = [None, Some(0), Some(0), Some(9)][credit];
            n.rsplit = Split::Few;
            n.rpend = true;
            n.wsplit = Split::Few;
            n.wpend = true;
            n.fpend = true;
        });
        if credit == 1 || credit == 3 {
            let net = net.clone();
            sched::at(secs(3.0), move || net.credit(None));
        }
        // Handed over before closing; some of it the task may have seen already.
        let mut want: Vec<String> = Vec::new();
        for i in 0..queued {
            let b = i == 1;
            emit(&mut c, &ctx.obs, "/", &format!("e{}", i), None, b, None);
            if b {
                want.push(format!("event / - [\"e{}\",[1,2]] [[1, 2]]", i));
            } else {
                want.push(format!("event / - [\"e{}\"] []", i));
            }
            if i == 0 && choose_cost(2) == 1 {
                sched::settle();
            }
        }
        // Sent but not read by the task when close is called.
        let early: Vec<Fr> = if before == Before::Nothing && choose(2) == 1 { evs(2, 50) } else { Vec::new() };
        push_frames(ctx, &early);
        let start = sched::now();
        let r = ctx.close(&mut c);
        let took = sched::now() - start;
        mcrt::costed_choices(false);
        let line = format!(
            "before {:?}, answer {:?}, {} queued, transport {}: {} after {:?}",
            before,
            answer,
            queued,
            credit,
            match &r {
                Ok(()) => "ok".to_string(),
                Err(e) => format!("error {}", e),
            },
            took
        );
        if took > secs(10.0) {
            return Err(viol("late", line));
        }
        let timeout = matches!(r, Err(Error::Timeout(_)));
        if timeout && took < secs(10.0) {
            return Err(viol("early", line));
        }
        if matches!(r, Err(Error::AlreadyClosed)) {
            return Err(viol("already", format!("{} on the first close", line)));
        }
        // What the result must be.
        #[derive(PartialEq, Debug)]
        enum W {
            Ok,
            Err,
            Timeout,
            Any,
        }
        let w = match before {
            Before::BadPacket | Before::Reset => W::Err,
            Before::ServerClosedEof => W::Ok,
            Before::ServerCloseFrame => W::Ok,
            Before::ServerLingers(_) if matches!(answer, Answer::ResetAfter | Answer::EchoLateEof | Answer::EventsLateThenEcho) => W::Any,
            Before::ServerLingers(true) => W::Ok,
            Before::ServerLingers(false) => W::Timeout,
            _ if credit == 2 => match answer {
                Answer::ResetAfter | Answer::EchoLateEof | Answer::EventsLateThenEcho => W::Any,
                _ => W::Timeout,
            },
            _ if credit != 0 && matches!(answer, Answer::ResetAfter | Answer::EchoLateEof | Answer::EventsLateThenEcho) => W::Any,
            Before::EngineClose if !after.is_empty() => W::Err,
            Before::EngineClose if !early.is_empty() => W::Err,
            Before::HalfBinary => W::Any,
            _ => match answer {
                Answer::EchoEof | Answer::EventsThenEcho | Answer::PingThenEcho => W::Ok,
                Answer::EchoLateEof | Answer::EventsLateThenEcho => W::Ok,
                Answer::EchoOnly | Answer::Nothing => W::Timeout,
                Answer::EofOnly | Answer::BadThenEcho | Answer::ResetAfter => W::Err,
            },
        };
        let good = match w {
            W::Ok => r.is_ok(),
            W::Err => r.is_err() && !timeout,
            W::Timeout => timeout,
            W::Any => true,
        };
        if !good {
            return Err(viol("result", format!("{}; expected {:?}", line, w)));
        }
        // What was sent.
        let flushed = matches!(before, Before::Nothing | Before::HalfBinary | Before::EngineClose)
            && credit != 2
            && !(credit != 0 && matches!(answer, Answer::ResetAfter | Answer::EchoLateEof | Answer::EventsLateThenEcho));
        let got = sent_lines(&ctx.net.got())?;
        if flushed {
            let g: Vec<String> = got.iter().filter(|x| *x != "pong").cloned().collect();
            let mut full = want.clone();
            full.push("close".into());
            eq_list("flush", &format!("{}; sent", line), &g, &full)?;
        } else {
            // at least nothing but whole packets in order, and one close at most
            let g: Vec<String> = got.iter().filter(|x| *x != "pong" && *x != "close").cloned().collect();
            if !want.starts_with(&g) {
                return Err(viol("flush", format!("{}; sent {:?}", line, g)));
            }
        }
        if got.iter().filter(|x| *x == "close").count() > 1 {
            return Err(viol("two-closes", format!("{}; sent {:?}", line, got)));
        }
        // What was delivered.
        let delivered = matches!(before, Before::Nothing) && flushed;
        if delivered {
            let e: Expect = expect(&[early, after].concat(), &reg);
            eq_list("delivery", &format!("{}; handlers called", line), &ctx.obs.get(), &e.calls)?;
        }
        match ctx.close(&mut c) {
            Err(Error::AlreadyClosed) => (),
            r => return Err(viol("again", format!("{}; closing again gives {:?}", line, r))),
        }
        sched::settle();
        if !ctx.task_done() {
            return Err(viol("task", format!("{}; the connection task is still there", line)));
        }
        if !ctx.net.dropped() {
            return Err(viol("transport", format!("{}; the transport was not released", line)));
        }
        if sched::pending_timers() > 0 {
            return Err(viol("timer", format!("{}; a timer is left", line)));
        }
        // A closed client can still be used and dropped.
        emit(&mut c, &ctx.obs, "/", "late", Some("cb"), false, None);
        drop(c);
        sched::settle();
        Ok(dig(&[vec![line], got]))
    })
}

/// Many packets handed over before closing, many delivered while closing.
fn c16_volume(sizes: &'static [usize]) -> Result<u64, Viol> {
    let cfg = WorldCfg {
        max_steps: 100_000 + 400 * sizes[sizes.len() - 1] as u64,
        ..calm()
    };
    run(&cfg, move |ctx| {
        let mut c = ctx.connect()?;
        let queued = sizes[choose(sizes.len())];
        let late = sizes[choose(sizes.len())];
        let kind = choose(3);
        let blocked = choose(2) == 1;
        let calls: Arc<Mutex<Vec<u64>>> = Arc::default();
        let w = calls.clone();
        c.set_event_callback("x", move |args: &Args, _: Option<AckBuilder>| {
            w.lock().unwrap().push(args.get(1).and_then(|a| a.deserialize().ok()).unwrap_or(u64::MAX));
        });
        log_line(|| format!("{} packets of kind {} queued, {} delivered while closing", queued, kind, late));
        let mut b = Vec::new();
        for i in 0..late {
            b.extend(text(&format!("42[\"x\",{}]", i)));
        }
        ctx.net.with(|n| n.on_close = OnClose::Echo(b));
        if blocked {
            ctx.net.credit(Some(0));
            let net = ctx.net.clone();
            sched::at(secs(9.0), move || net.credit(None));
        }
        let mut want = Vec::new();
        for i in 0..queued {
            let bytes = (i as u32).to_be_bytes();
            if kind == 0 || kind == 2 && i % 2 == 0 {
                c.emit("e").args().arg(&i).unwrap().send();
                want.push(Msg::Text(format!("42[\"e\",{}]", i)));
            } else {
                c.emit("e").binary(true).args().arg(&bytes[..]).unwrap().send();
                let mut att = vec![4];
                att.extend(bytes);
                want.push(Msg::Text("451-[\"e\",{\"_placeholder\":true,\"num\":0}]".into()));
                want.push(Msg::Bin(att));
            }
        }
        let r = ctx.close(&mut c);
        if let Err(e) = r {
            return Err(viol("result", format!("{} packets queued, {} delivered while closing: close reports {}", queued, late, e)));
        }
        let mut got = ctx.net.got();
        if !matches!(got.pop(), Some(Msg::Close(_))) {
            return Err(viol("flush", format!("{} packets queued: no close at the end", queued)));
        }
        if let Some(k) = (0..want.len().max(got.len())).find(|k| want.get(*k) != got.get(*k)) {
            return Err(viol("flush", format!("message {} of {} is {:?} instead of {:?}", k, want.len(), got.get(k), want.get(k))));
        }
        let calls = calls.lock().unwrap().clone();
        if calls != (0..late as u64).collect::<Vec<_>>() {
            return Err(viol("delivery", format!("{} events sent while closing, {} delivered", late, calls.len())));
        }
        Ok(queued as u64)
    })
}

/// Packets handed over by other threads before close is called are sent before the close frame.
fn c16_threads(n: usize) -> Result<u64, Viol> {
    run(&WorldCfg::default(), move |ctx| {
        let mut c = ctx.connect()?;
        let clock = Arc::new(AtomicUsize::new(0));
        let done: Arc<Mutex<Vec<(String, usize)>>> = Arc::default();
        for k in 0..n {
            let raw = c.send.clone();
            let (clock, done) = (clock.clone(), done.clone());
            sched::spawn(format!("sender {}", k), false, move || {
                for j in 0..2 {
                    let s = format!("42[\"t{}.{}\"]", k, j);
                    let r = raw.unbounded_send(vec![WsMessage::Text(s.clone())]);
                    if r.is_ok() {
                        let t = clock.fetch_add(1, SeqCst);
                        done.lock().unwrap().push((s, t));
                    }
                }
            });
        }
        emit(&mut c, &ctx.obs, "/", "mine", None, false, None);
        let t0 = clock.fetch_add(1, SeqCst);
        let r = ctx.close(&mut c);
        sched::settle();
        if let Err(e) = r {
            return Err(viol("result", format!("close reports {}", e)));
        }
        let got = ctx.net.got();
        let close = got.iter().position(|m| matches!(m, Msg::Close(_)));
        let close = match close {
            Some(i) => i,
            None => return Err(viol("close-frame", format!("no close frame: {:?}", shown(&got)))),
        };
        if close + 1 != got.len() {
            return Err(viol("after-close", format!("something follows the close frame: {:?}", shown(&got))));
        }
        let sent: Vec<String> = shown(&got[..close]);
        let mut must: Vec<String> = done.lock().unwrap().iter().filter(|d| d.1 < t0).map(|d| d.0.clone()).collect();
        must.push("42[\"mine\"]".into());
        for m in &must {
            if sent.iter().filter(|s| *s == m).count() != 1 {
                return Err(viol("flush", format!("{} was handed over before close, sent: {:?}", m, sent)));
            }
        }
        for k in 0..n {
            let o: Vec<&String> = sent.iter().filter(|s| s.starts_with(&format!("42[\"t{}.", k))).collect();
            if o.windows(2).any(|w| w[0] >= w[1]) {
                return Err(viol("order", format!("{:?}", sent)));
            }
        }
        Ok(dig(&[sent]))
    })
}

pub fn c16(tier: Tier) -> Vec<Scenario> {
    let many = tier.pick(&[0usize, 1, 40, 300, 5_000][..], &[0, 1, 40, 300, 5_000, 70_000][..]);
    vec![
        scenario("closing in every situation", tier.pick(1, 2), || c16_run(0)),
        scenario("closing a live session", tier.pick(2, 3), || c16_run(1)),
        buffering(scenario("closing a live session", tier.pick(2, 3), || c16_run(1))),
        buffering(scenario("closing in every situation", tier.pick(1, 1), || c16_run(0))),
        scenario("much to send and much to read", 0, move || c16_volume(many)),
        scenario("one other sender", tier.pick(3, 4), || c16_threads(1)),
        scenario("two other senders", tier.pick(2, 3), || c16_threads(2)),
    ]
}
