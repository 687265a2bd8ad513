//! Hostile input, endpoints, reassembly of binary packets: C17, C20, C23.
use std::collections::{BTreeMap, HashMap};
use std::future::ready;
use std::sync::{Arc, Mutex};

use mcrt::explore::{choose, choose_cost, log_line, step, Scenario, Viol};
use mcrt::sched::{self, guard, WorldCfg};
use serde_json::Value;
use socket_io_client::protocol::Args;
use socket_io_client::{AckBuilder, Client, Error, EventCallback};
use socket_io_protocol::engine::Message as EMsg;
use socket_io_protocol::socket::{self, Data, DeserializeResult};

use crate::client_a::{calm, still, emit, event_text};
use crate::driver::{idling, scenario, viol, Tier};
use crate::model::{a, expect, t, Expect, Fr, Out, Ran, Reg, Session};
use crate::reference::parse_packet;
use crate::world::*;

// ---------------------------------------------------------------- C17

/// Use everything a handler can use on its arguments.
fn exercise(args: &Args) {
    let n = args.len();
    let mut s = format!("{} {:?} {}", args, args, args.is_empty());
    for i in (0..n + 2).chain([usize::MAX]) {
        let x = match args.get(i) {
            Some(x) => x,
            None => continue,
        };
        s.push_str(&format!("{} {:?}", x, x));
        match x.to_json_value() {
            Ok(v) => s.push_str(&v.to_string()),
            Err(e) => s.push_str(&format!("{} {:?}", e, e)),
        }
        macro_rules! read {
            ($($ty:ty),*) => {
                $(match x.deserialize::<$ty>() {
                    Ok(v) => s.push_str(&format!("{:?}", v)),
                    Err(e) => s.push_str(&format!("{} {:?}", e, e)),
                })*
            };
        }
        read!(
            Value,
            String,
            &str,
            bool,
            i8,
            u64,
            i128,
            f32,
            f64,
            char,
            (),
            Option<Value>,
            Vec<u8>,
            Vec<Value>,
            [u8; 2],
            (u8, String),
            HashMap<String, Value>,
            BTreeMap<u8, Option<Vec<u8>>>,
            Result<Vec<u8>, String>,
            serde::de::IgnoredAny,
            Box<serde_json::value::RawValue>
        );
    }
    let _ = args.iter().count();
    let _ = args.clone().len();
    std::hint::black_box(s.len());
}

fn exercising(obs: &Obs, name: &str, reply: bool) -> EventCallback {
    let (obs, name) = (obs.clone(), name.to_string());
    let mut n = 0;
    EventCallback::from(move |args: &Args, ack: Option<AckBuilder>| {
        n += 1;
        obs.push(format!(
            "{}#{} {}{}",
            name,
            n,
            show_args(args),
            if ack.is_some() { " ack" } else { "" }
        ));
        exercise(args);
        if let (Some(a), true) = (ack, reply) {
            let mut b = a.binary(true).args();
            for x in args.iter() {
                if let Ok(v) = x.to_json_value() {
                    b.arg_ref(&v).unwrap();
                }
            }
            b.send()
        }
    })
}

#[derive(Clone, Debug)]
enum Item {
    F(Fr),
    /// Bytes that are not a valid frame of a server; true: the connection must fail.
    Raw(&'static str, Vec<u8>, bool),
}

impl Item {
    fn bytes(&self) -> Vec<u8> {
        match self {
            Item::F(f) => f.bytes(),
            Item::Raw(_, b, _) => b.clone(),
        }
    }
    fn show(&self) -> String {
        match self {
            Item::F(f) => {
                let mut s = f.show();
                if s.len() > 90 {
                    let mut k = 90;
                    while !s.is_char_boundary(k) {
                        k -= 1
                    }
                    s.truncate(k);
                    s.push('…');
                }
                s
            }
            Item::Raw(n, ..) => n.to_string(),
        }
    }
}

fn nested(n: usize) -> String {
    format!("42[\"x\",{}{}]", "[".repeat(n), "]".repeat(n))
}

/// Valid, boundary and malformed messages.
fn hostile() -> Vec<Item> {
    let mut v: Vec<Item> = Vec::new();
    let p = "{\"_placeholder\":true,\"num\":0}";
    for s in [
        // valid
        "42[\"x\",1]",
        "42/a,1[\"x\"]",
        "42/a,18446744073709551615[\"y\"]",
        "430[\"ok\"]",
        "40",
        "41",
        "40/a,",
        "41/b,",
        "2",
        "3",
        "1",
        "42[\"x\",{\"_placeholder\":true,\"num\":0}]",
        "42[\"nobody\"]",
        "42/b,[\"x\"]",
        "450-[\"x\"]",
        // arguments that fit no value
        "42[\"x\",1e999]",
        "42[\"x\",-1e-999,123456789012345678901234567890]",
        "42[\"x\",\"\\ud800\"]",
        "42[\"x\",\"\\udc00\\ud800\",{\"\\ud800\":1}]",
        "42[\"\\ud800\"]",
        "42[\"x\",{\"a\":1,\"a\":2}]",
        "42[\"x\",{\"_placeholder\":true}]",
        "42[\"x\",{\"_placeholder\":1,\"num\":\"0\"}]",
        // placeholders
        "451-[\"x\",{\"_placeholder\":true,\"num\":0}]",
        "451-[\"x\",{\"_placeholder\":true,\"num\":1}]",
        "451-[\"x\",{\"_placeholder\":true,\"num\":-1}]",
        "451-[\"x\",{\"_placeholder\":true,\"num\":1e3}]",
        "451-[\"x\",{\"_placeholder\":true,\"num\":18446744073709551615}]",
        "451-[\"x\",{\"_placeholder\":true,\"num\":18446744073709551616}]",
        "451-[\"x\",{\"_placeholder\":true}]",
        "451-[\"x\",{\"_placeholder\":true,\"num\":\"0\"}]",
        "451-[\"x\",{\"_placeholder\":true,\"num\":{\"_placeholder\":true,\"num\":0}}]",
        "451-[\"x\",\"\\ud800\",1e999,{\"_placeholder\":true,\"num\":9}]",
        "461-0[{\"_placeholder\":true,\"num\":3}]",
        "452-/a,7[\"x\",{\"_placeholder\":true,\"num\":1},{\"_placeholder\":true,\"num\":0}]",
        // event names that are none
        "42[]",
        "42",
        "42/a,",
        "42[1]",
        "42[null]",
        "42[[\"x\"]]",
        "42[{\"x\":1}]",
        "451-[{\"_placeholder\":true,\"num\":5}]",
        // acknowledgements
        "431[]",
        "43[]",
        "43",
        "43/a,0[]",
        "4318446744073709551615[]",
        "4318446744073709551616[]",
        "430{}",
        "430[",
        // packets out of grammar
        "4",
        "47[]",
        "4x",
        "42x",
        "42[\"x\"",
        "42[\"x\"]]",
        "42[\"x\"],",
        "42[\"x\",]",
        "42[,\"x\"]",
        "42[\"x\" 1]",
        "42{\"x\":1}",
        "42\"x\"",
        "42[\"x\\q\"]",
        "42[\"x\u{1}\"]",
        "42[\"x\",01]",
        "42[\"x\",NaN]",
        "42/a[\"x\"]",
        "42/a,/b,[\"x\"]",
        "42-1[\"x\"]",
        "421-[\"x\"]",
        "4218446744073709551616[\"x\"]",
        "45[\"x\"]",
        "45-[\"x\"]",
        "4518446744073709551616-[\"x\"]",
        "4518446744073709551615-[\"x\"]",
        "46",
        "461-",
        "461-[]",
        "40[]",
        "41[]",
        // engine
        "",
        "0",
        "0{}",
        OPEN,
        "5",
        "6",
        "7",
        "b4AAAA",
        "é",
        "\u{0}",
        " 42[\"x\"]",
    ] {
        v.push(Item::F(t(s)))
    }
    for n in [126, 127, 128, 129, 2500] {
        v.push(Item::F(t(&nested(n))))
    }
    v.push(Item::F(t(&format!("451-[\"x\",{}{}{}]", "[".repeat(127), p, "]".repeat(127)))));
    v.push(Item::F(t(&format!("451-[\"x\",{}{}{}]", "{\"k\":".repeat(200), p, "}".repeat(200)))));
    v.push(Item::F(t(&format!("42[\"x\"{}]", ",0".repeat(3000)))));
    v.push(Item::F(t(&format!("42[\"x\",\"{}\"]", "é".repeat(40000)))));
    v.push(Item::F(t(&format!("42/{},[\"x\"]", "n".repeat(5000)))));
    for b in [&b""[..], &[4], &[4, 1, 2], &[0], &[3], &[255], b"42[\"x\"]"] {
        v.push(Item::F(Fr::B(b.to_vec())))
    }
    v.push(Item::F(Fr::WsPing));
    v.push(Item::F(Fr::WsPong));
    // WebSocket level
    let raw = |n, b: Vec<u8>, e| Item::Raw(n, b, e);
    v.push(raw("reserved bit", frame_raw(0x81 | 0x40, b"2"), true));
    v.push(raw("reserved opcode 3", frame_raw(0x83, b"2"), true));
    v.push(raw("reserved opcode 11", frame_raw(0x8b, b""), true));
    v.push(raw("continuation of nothing", frame_raw(0x80, b"2"), true));
    v.push(raw("text inside a fragmented text", [frame_raw(0x01, b"4"), frame_raw(0x81, b"2")].concat(), true));
    v.push(raw("invalid UTF-8", frame(1, &[b'4', b'2', b'[', b'"', 0xff, b'"', b']']), true));
    v.push(raw("invalid UTF-8 in the second fragment", [frame_raw(0x01, b"42[\"\xc3"), frame_raw(0x80, b"\x28\"]")].concat(), true));
    v.push(raw("fragmented ping", frame_raw(0x09, b""), true));
    v.push(raw("long ping", frame(9, &[0; 126]), true));
    v.push(raw("masked", vec![0x81, 0x81, 0, 0, 0, 0, b'2'], true));
    v.push(raw("length 2^63", vec![0x82, 127, 0x80, 0, 0, 0, 0, 0, 0, 0], true));
    v.push(raw("length 17 MiB", vec![0x82, 127, 0, 0, 0, 0, 0x01, 0x10, 0, 0], true));
    v.push(raw("close with one byte", frame(8, &[3]), false));
    v.push(raw("close with a bad code", frame(8, &1005u16.to_be_bytes()), false));
    v.push(raw("close with invalid UTF-8", frame(8, &[3, 232, 0xff]), false));
    v.push(raw("close with a long reason", frame(8, &[&[3u8, 232][..], &[b'a'; 123]].concat()), false));
    v.push(raw("HTTP again", b"HTTP/1.1 200 OK\r\n\r\n".to_vec(), false));
    v
}

struct Judged {
    calls: Vec<String>,
    error: bool,
    may_error: bool,
    open: bool,
}

fn judge_items(items: &[&Item], reg: &Reg) -> Judged {
    let mut fs: Vec<Fr> = Vec::new();
    let mut bad = None;
    for i in items {
        match i {
            Item::F(f) => fs.push(f.clone()),
            Item::Raw(_, _, e) => {
                bad = Some(*e);
                break;
            }
        }
    }
    let e: Expect = expect(&fs, reg);
    let mut j = Judged {
        calls: e.calls,
        error: e.error,
        may_error: e.may_error,
        open: e.open,
    };
    if !j.error && !j.open {
        match bad {
            Some(true) => j.error = true,
            Some(false) => j.open = true,
            None => {}
        }
    }
    j
}

/// The same message when the outstanding acknowledgement has this id instead of 0.
fn with_id(f: &Fr, id: u64) -> Fr {
    let Fr::T(s) = f else { return f.clone() };
    for (from, to) in [
        ("430", format!("43{}", id)),
        ("431", format!("43{}", id.wrapping_add(1))),
        ("43/a,0", format!("43/a,{}", id)),
        ("461-0", format!("461-{}", id)),
    ] {
        if let Some(rest) = s.strip_prefix(from) {
            if !rest.starts_with(|c: char| c.is_ascii_digit()) {
                return Fr::T(to + rest);
            }
        }
    }
    f.clone()
}

fn item_with_id(i: &Item, id: u64) -> Item {
    match i {
        Item::F(f) => Item::F(with_id(f, id)),
        i => i.clone(),
    }
}

fn c17_reg(id: u64) -> Reg {
    let mut reg = Reg::default();
    reg.ev.insert(("/".into(), "x".into()), "X".into());
    reg.fb.insert("/a".into(), "A".into());
    reg.acks.insert(("/".into(), id), "cb".into());
    reg
}

/// A client, and the id of its outstanding acknowledgement.
fn c17_world(ctx: &Ctx) -> Result<(Client, u64), Viol> {
    let mut c = ctx.connect()?;
    c.set_event_callback("x", exercising(&ctx.obs, "X", false));
    c.set_namespace_fallback_callback("/a", exercising(&ctx.obs, "A", true));
    let obs = ctx.obs.clone();
    c.emit("e")
        .callback(move |args: &Args| {
            obs.push(format!("cb {}", show_args(args)));
            exercise(args);
        })
        .args()
        .send();
    sched::settle();
    let id = crate::client_a::asked_id(ctx)?;
    Ok((c, id))
}

/// How an object that is almost a placeholder reads is left open.
fn c17_got(ctx: &Ctx, want: &[String]) -> Vec<String> {
    let mut got = ctx.obs.get();
    for (g, w) in got.iter_mut().zip(want) {
        if w.contains("_placeholder") && g.split('[').next() == w.split('[').next() && g.ends_with("ack") == w.ends_with("ack") {
            *g = w.clone()
        }
    }
    got
}

fn c17_judge(ctx: &Ctx, c: &mut Client, j: &Judged) -> Result<u64, Viol> {
    let got = c17_got(ctx, &j.calls);
    let n = got.len().min(j.calls.len());
    if j.open {
        eq_list("calls", "handlers called", &got[..n], &j.calls)?;
    } else {
        eq_list("calls", "handlers called", &got, &j.calls)?;
    }
    let r = ctx.close(c);
    if let Err(e) = &r {
        let _ = format!("{} {:?}", e, e);
    }
    if !j.open {
        eq_list("calls", "handlers called", &c17_got(ctx, &j.calls), &j.calls)?;
        match (&r, j.error) {
            (Ok(()), true) => return Err(viol("unreported", "close reports success after malformed input")),
            (Err(e), false) if !j.may_error => return Err(viol("result", format!("close reports {} after valid input", e))),
            _ => {}
        }
    }
    if let Err(e) = ctx.close(c) {
        if !matches!(e, Error::AlreadyClosed) {
            return Err(viol("result", format!("closing again reports {}", e)));
        }
    }
    Ok(dig(&[got, vec![r.is_ok().to_string()]]))
}

fn c17_run(depth: usize, size: usize) -> Result<u64, Viol> {
    let small = size > 0;
    let logging = choose(2) == 1;
    let all = HOSTILE.with(|h| h.clone());
    // For long sequences, short messages spread over the alphabet.
    let pool: Vec<usize> = (0..all.len()).filter(|i| !small || all[*i].bytes().len() < 200).collect();
    let n = if small { size } else { pool.len() };
    let items: Vec<Item> = (0..depth).map(|_| all[pool[choose(n) * pool.len() / n]].clone()).collect();
    // The model needs more stack than the simulated threads have.
    let j = judge_items(&items.iter().collect::<Vec<_>>(), &c17_reg(0));
    let together = choose(2) == 1;
    user_logging(logging);
    let r = run(&still(), move |ctx| {
        let (mut c, id) = c17_world(ctx)?;
        let mut bytes = Vec::new();
        for i in &items {
            step();
            let i = item_with_id(i, id);
            log_line(|| format!("server sends {}", i.show()));
            if together {
                bytes.extend(i.bytes())
            } else {
                ctx.net.push(&i.bytes());
                sched::settle();
            }
        }
        if together {
            ctx.net.push(&bytes);
            sched::settle();
        }
        c17_judge(ctx, &mut c, &j).map_err(|v| {
            let s: Vec<String> = items.iter().map(|i| i.show()).collect();
            Viol {
                msg: format!("{}; the server sent {:?}", v.msg, s),
                ..v
            }
        })
    });
    user_logging(false);
    r
}

std::thread_local! {
    static HOSTILE: Arc<Vec<Item>> = Arc::new(hostile());
}

/// Every single corruption of one byte of a valid message, and every truncation.
fn c17_corrupt(k: usize) -> Result<u64, Viol> {
    let base = [
        "42[\"x\",{\"a\":[1,null]}]",
        "42/a,12[\"x\",\"\\u00e9\"]",
        "43#[true,\"v\"]",
        "451-/a,[\"x\",{\"_placeholder\":true,\"num\":0}]",
    ];
    let logging = choose(2) == 1;
    user_logging(logging);
    let r = run(&calm(), move |ctx| {
        let (mut c, id) = c17_world(ctx)?;
        let b = base[k].replace('#', &id.to_string());
        let pos = choose(b.len());
        let what = choose(5 + SUBST.len());
        let mut s: Vec<u8> = b.bytes().collect();
        match what {
            0 => s.truncate(pos),
            1 => {
                s.remove(pos);
            }
            2 => s.insert(pos, s[pos]),
            3 => {
                let p2 = (pos + 1) % s.len();
                s.swap(pos, p2)
            }
            4 => {
                let tail = s[pos..].to_vec();
                s.extend(tail)
            }
            w => s[pos] = SUBST[w - 5],
        }
        let s = String::from_utf8(s).unwrap();
        let mut fs = vec![Item::F(t(&s))];
        if k == 3 {
            fs.push(Item::F(a(b"att")));
        }
        for f in &fs {
            log_line(|| format!("server sends {}", f.show()));
            ctx.net.push(&f.bytes());
            sched::settle();
        }
        c17_judge(ctx, &mut c, &judge_items(&fs.iter().collect::<Vec<_>>(), &c17_reg(id))).map_err(|v| Viol {
            msg: format!("{}; the server sent {:?}", v.msg, s),
            ..v
        })
    });
    user_logging(false);
    r
}

/// Wide characters at every offset of every part of a message, so that cutting anywhere cuts one.
fn c17_wide(sizes: &'static [usize]) -> Result<u64, Viol> {
    let logging = choose(2) == 1;
    user_logging(logging);
    let r = run(&calm(), move |ctx| {
        let (mut c, id) = c17_world(ctx)?;
        let ch = ['é', '€', '😀'][choose(3)];
        let shift = choose(ch.len_utf8());
        let n = sizes[choose(sizes.len())];
        let w = format!("{}{}", "a".repeat(shift), ch.to_string().repeat(n / ch.len_utf8()));
        let place = choose(16);
        let s = match place {
            0 => format!("42[\"x\",\"{}\"]", w),
            1 => format!("42[\"{}\",1]", w),
            2 => format!("42/{},[\"x\"]", w),
            3 => format!("42/a,7[\"{}\"]", w),
            4 => format!("42[\"x\",{{\"{}\":[\"{}\"]}}]", w, w),
            5 => format!("43{}[\"{}\"]", id, w),
            6 => format!("451-[\"x\",\"{}\",{{\"_placeholder\":true,\"num\":0}}]", w),
            7 => format!("4{}", w),
            8 => w.clone(),
            9 => format!("42[\"x\",\"{}\"", w),
            10 => format!("43{}[\"{}\"]", id.wrapping_add(1), w),
            11 => format!("42[{{\"{}\":1}}]", w),
            13 => format!("42[\"x\",[\"{}\",1e999]]", w),
            14 => format!("42[\"x\",\"\\ud800{}\"]", w),
            15 => format!("451-[\"x\",{{\"{}\":{{\"_placeholder\":true,\"num\":9}}}}]", w),
            _ => format!("0{}", w),
        };
        let mut fs = vec![Item::F(t(&s))];
        if place == 6 || place == 15 {
            fs.push(Item::F(a(w.as_bytes())));
        }
        if place > 6 && place < 13 {
            fs.insert(0, Item::F(t("42[\"x\"]")));
        }
        log_line(|| format!("place {}, {} times {:?} after {} bytes", place, n, ch, shift));
        for f in &fs {
            ctx.net.push(&f.bytes());
            sched::settle();
        }
        c17_judge(ctx, &mut c, &judge_items(&fs.iter().collect::<Vec<_>>(), &c17_reg(id))).map_err(|v| Viol {
            msg: format!("place {}, {} times {:?} after {} bytes: {}", place, n, ch, shift, v.msg.chars().take(400).collect::<String>()),
            ..v
        })
    });
    user_logging(false);
    r
}

const SUBST: &[u8] = b"0129-,/[]{}\":\\ tx.e\n\x01\x7f";

pub fn c17(tier: Tier) -> Vec<Scenario> {
    let mut v = vec![scenario("sequences of 1", 0, || c17_run(1, 0)), scenario("sequences of 2", 0, || c17_run(2, 0))];
    for k in 0..4 {
        v.push(scenario(format!("corruptions of message {}", k), 0, move || c17_corrupt(k)));
    }
    let sizes = tier.pick(&[60usize, 300, 70_000][..], &[12, 60, 125, 300, 5_000, 70_000, 300_000][..]);
    v.push(scenario("wide characters", 0, move || c17_wide(sizes)));
    v.push(scenario("sequences of 3", 0, move || c17_run(3, tier.pick(36, 100))));
    v
}

// ---------------------------------------------------------------- C20

struct UrlCase {
    url: String,
    /// (host, port, tls, host header without port) or `None` if the URL must be refused.
    want: Option<(String, u16, bool)>,
    path: String,
    query: Vec<(String, String)>,
}

const SCHEMES: [(&str, Option<bool>); 12] = [
    ("http", Some(false)),
    ("ws", Some(false)),
    ("https", Some(true)),
    ("wss", Some(true)),
    ("HTTP", Some(false)),
    ("Wss", Some(true)),
    ("ftp", None),
    ("file", None),
    ("w", None),
    ("wsss", None),
    ("tcp", None),
    ("http+unix", None),
];
const USERS: [&str; 4] = ["", "u@", "u:p@", "ws:443@"];
const HOSTS: [(&str, &str); 20] = [
    ("example.com", "example.com"),
    ("EXAMPLE.Com", "example.com"),
    ("localhost", "localhost"),
    ("127.0.0.1", "127.0.0.1"),
    ("[::1]", "::1"),
    ("[2001:DB8::1]", "2001:db8::1"),
    ("[::ffff:1.2.3.4]", "::ffff:1.2.3.4"),
    ("a.b.c.d.example", "a.b.c.d.example"),
    ("b%C3%BCcher.example", "xn--bcher-kva.example"),
    ("bücher.example", "xn--bcher-kva.example"),
    ("h", "h"),
    ("wss", "wss"),
    ("h_1", "h_1"),
    ("80.example", "80.example"),
    ("example.com.", "example.com."),
    ("a-b.example", "a-b.example"),
    ("xn--bcher-kva.example", "xn--bcher-kva.example"),
    ("0x7f.1", "127.0.0.1"),
    ("[2001:db8:0:1:0:0:0:1]", "2001:db8:0:1::1"),
    ("a123456789a123456789a123456789a123456789.example", "a123456789a123456789a123456789a123456789.example"),
];
/// Text, port, valid.
const PORTS: [(&str, Option<u16>, bool); 11] = [
    ("", None, true),
    (":", None, true),
    (":80", Some(80), true),
    (":443", Some(443), true),
    (":8080", Some(8080), true),
    (":0", Some(0), true),
    (":65535", Some(65535), true),
    (":00081", Some(81), true),
    (":65536", None, false),
    (":x", None, false),
    (":-1", None, false),
];
const PATHS: [(&str, &str); 16] = [
    ("", "/"),
    ("/", "/"),
    ("/a/b", "/a/b"),
    ("/socket.io/", "/socket.io/"),
    ("/a%20b", "/a%20b"),
    ("/a b", "/a%20b"),
    ("/é", "/%C3%A9"),
    ("/x/../y", "/y"),
    ("/a;b=c,d:e@f", "/a;b=c,d:e@f"),
    ("//", "//"),
    ("/a//b/", "/a//b/"),
    ("/a%2Fb%3F%23", "/a%2Fb%3F%23"),
    ("/Socket.IO", "/Socket.IO"),
    ("/socket.io", "/socket.io"),
    ("/:80/ws://x", "/:80/ws://x"),
    ("/.well-known/~u/", "/.well-known/~u/"),
];
const QUERIES: [(&str, &[(&str, &str)]); 20] = [
    ("", &[]),
    ("?", &[]),
    ("?a=1", &[("a", "1")]),
    ("?a=1&b=2", &[("a", "1"), ("b", "2")]),
    ("?a=1&a=2&a=", &[("a", "1"), ("a", "2"), ("a", "")]),
    ("?a", &[("a", "")]),
    ("?a=b=c", &[("a", "b=c")]),
    ("?a=%26%3D%2B+x", &[("a", "&=+ x")]),
    ("?é=ü", &[("é", "ü")]),
    ("?q=a/b?c:d", &[("q", "a/b?c:d")]),
    ("?transportx=polling&EIOx=1", &[("transportx", "polling"), ("EIOx", "1")]),
    ("?a=%23%25", &[("a", "#%")]),
    ("?transport=polling", &[("transport", "polling")]),
    ("?EIO=3&transport=polling&b=", &[("EIO", "3"), ("transport", "polling"), ("b", "")]),
    ("?transport=websocket", &[("transport", "websocket")]),
    ("?transport=websocket&EIO=4", &[("transport", "websocket"), ("EIO", "4")]),
    ("?sid=abc&t=1", &[("sid", "abc"), ("t", "1")]),
    ("?eio=1&Transport=x", &[("eio", "1"), ("Transport", "x")]),
    ("?=v&k=", &[("", "v"), ("k", "")]),
    (LONG, &[("token", LONG_VALUE), ("z", "9")]),
];
const LONG_VALUE: &str = "0123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef";
const LONG: &str = "?token=0123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef&z=9";
const FRAGMENTS: [&str; 3] = ["", "#f", "#?a=b&c"];

fn decode_pairs(q: &str) -> Vec<(String, String)> {
    fn dec(s: &str) -> String {
        let b = s.as_bytes();
        let mut o = Vec::new();
        let mut i = 0;
        while i < b.len() {
            if b[i] == b'%' && i + 2 < b.len() + 0 && s.is_char_boundary(i + 3) {
                if let Ok(x) = u8::from_str_radix(&s[i + 1..i + 3], 16) {
                    o.push(x);
                    i += 3;
                    continue;
                }
            }
            o.push(if b[i] == b'+' { b' ' } else { b[i] });
            i += 1;
        }
        String::from_utf8_lossy(&o).into_owned()
    }
    q.split('&')
        .filter(|s| !s.is_empty())
        .map(|s| {
            let (k, v) = s.split_once('=').unwrap_or((s, ""));
            (dec(k), dec(v))
        })
        .collect()
}

fn url_case(sc: usize, us: usize, ho: usize, po: usize, pa: usize, qu: usize, fr: usize) -> UrlCase {
    let url = format!(
        "{}://{}{}{}{}{}{}",
        SCHEMES[sc].0, USERS[us], HOSTS[ho].0, PORTS[po].0, PATHS[pa].0, QUERIES[qu].0, FRAGMENTS[fr]
    );
    let want = match (SCHEMES[sc].1, PORTS[po].2) {
        (Some(tls), true) => Some((
            HOSTS[ho].1.to_string(),
            PORTS[po].1.unwrap_or(if tls { 443 } else { 80 }),
            tls,
        )),
        _ => None,
    };
    UrlCase {
        url,
        want,
        path: PATHS[pa].1.into(),
        query: QUERIES[qu].1.iter().map(|(a, b)| (a.to_string(), b.to_string())).collect(),
    }
}

const REFUSED: [&str; 26] = [
    "",
    "x",
    "/",
    "//h/",
    "http:",
    "http://",
    "ws://",
    "ws://:80/",
    "ws://u@",
    "ws://u@:80/",
    "http://[::1",
    "http://[::g]/",
    "http://[1::2::3]/",
    "http://a b/",
    "http://a<b/",
    "http://%zz/",
    "http://1.2.3.256/",
    "mailto:a@b",
    "data:,ws://h/",
    "javascript:1",
    "localhost:80",
    "localhost",
    "ws:/\u{0}",
    "file:///x",
    "unix:/run/s",
    "about:blank",
];

#[derive(Clone, Copy, PartialEq)]
enum Via {
    Connect,
    ConnectFails,
    Stream,
}

fn c20_case(ctx: &Ctx, case: &UrlCase, via: Via) -> Result<u64, Viol> {
    let calls: Arc<Mutex<Vec<(String, u16)>>> = Arc::default();
    let (c2, net) = (calls.clone(), ctx.net.clone());
    let bad = |k: &str, m: String| Err(viol(k, format!("{:?}: {}", case.url, m)));
    let r = if via == Via::Stream {
        sched::block_on("connecting", Client::from_stream(&case.url, ctx.net.stream(), &ctx.spawner))
    } else {
        let connect = move |h: String, p: u16| {
            log_line(|| format!("connector called with {:?} {}", h, p));
            c2.lock().unwrap().push((h, p));
            ready(if via == Via::ConnectFails {
                Err(std::io::Error::from(std::io::ErrorKind::ConnectionRefused))
            } else {
                Ok(net.stream())
            })
        };
        sched::block_on("connecting", Client::connect(&case.url, connect, &ctx.spawner))
    };
    let calls = calls.lock().unwrap().clone();
    let (raw, request) = ctx.net.with(|n| (n.raw.clone(), n.request.clone()));
    let (host, port, tls) = match &case.want {
        None => {
            if !calls.is_empty() {
                return bad("early-connect", format!("the connector was called with {:?}", calls));
            }
            if !raw.is_empty() {
                return bad("early-connect", "bytes were sent".into());
            }
            return match r {
                Err(Error::UrlError(..)) => Ok(0),
                Err(e) => bad("url-error", format!("reported as {}", e)),
                Ok(_) => bad("url-error", "accepted".into()),
            };
        }
        Some(w) => w.clone(),
    };
    // An address may be written in several ways.
    let same = |x: &str| match (x.parse::<std::net::IpAddr>(), host.parse::<std::net::IpAddr>()) {
        (Ok(a), Ok(b)) => a == b,
        _ => x == host,
    };
    if via != Via::Stream && !(calls.len() == 1 && same(&calls[0].0) && calls[0].1 == port) {
        return bad("endpoint", format!("the connector was called with {:?}, expected ({:?}, {})", calls, host, port));
    }
    let host = host.clone();
    if via == Via::ConnectFails {
        return match r {
            Err(Error::ConnectionError(_)) => Ok(1),
            Err(e) => bad("connect-error", format!("a failing connector is reported as {}", e)),
            Ok(_) => bad("connect-error", "connected although the connector failed".into()),
        };
    }
    if tls {
        if r.is_ok() {
            return bad("tls", "connected without TLS".into());
        }
        if raw.is_empty() && host.chars().all(|c| c.is_ascii_digit() || c == '.' || c == ':' || c == '_' || c.is_ascii_hexdigit())
        {
            // The TLS library may refuse hosts that are not domain names.
            return Ok(2);
        }
        if raw.len() < 6 || raw[0] != 0x16 || raw[1] != 3 || raw[5] != 1 {
            return bad("tls", format!("the client opens with {:?} instead of a TLS ClientHello ({:?})", &raw[..raw.len().min(8)], r.err()));
        }
        if host.contains('.') && !host.contains(':') && host.parse::<std::net::Ipv4Addr>().is_err() {
            let h = host.trim_end_matches('.').as_bytes();
            if !raw.windows(h.len()).any(|w| w == h) {
                return bad("tls", "the ClientHello does not name the host".into());
            }
        }
        return Ok(3);
    }
    let mut c = match r {
        Ok(c) => c,
        Err(e) => return bad("connect", format!("connecting failed: {}", e)),
    };
    let line = request.lines().next().unwrap_or("").to_string();
    let mut w = line.split(' ');
    let (m, target, v) = (w.next(), w.next().unwrap_or(""), w.next());
    if m != Some("GET") || v != Some("HTTP/1.1") || w.next().is_some() {
        return bad("request", format!("request line {:?}", line));
    }
    let (path, query) = target.split_once('?').unwrap_or((target, ""));
    if path != case.path {
        return bad("request", format!("request path {:?}, expected {:?}", path, case.path));
    }
    let mut pairs = decode_pairs(query);
    if target.contains('#') || pairs.len() < 2 {
        return bad("request", format!("request target {:?}", target));
    }
    let mut own = pairs.split_off(pairs.len() - 2);
    own.sort();
    if own[1].0 != "transport" || own[0].0 != "EIO" {
        // the engine.io parameters may as well come first
        pairs.extend(own);
        let rest = pairs.split_off(2);
        own = std::mem::replace(&mut pairs, rest);
        own.sort();
    }
    if own[0].0 != "EIO" || own[0].1.parse::<u32>().is_err() || own[1] != ("transport".to_string(), "websocket".to_string()) {
        return bad("request", format!("engine.io parameters {:?}", own));
    }
    if pairs != case.query {
        return bad("request", format!("user parameters {:?}, expected {:?}", pairs, case.query));
    }
    let header = request
        .lines()
        .find_map(|l| l.split_once(':').filter(|(k, _)| k.eq_ignore_ascii_case("host")))
        .map(|x| x.1.trim().to_string())
        .unwrap_or_default();
    let (hh, hp) = match header.rsplit_once(':') {
        Some((h, p)) if !p.ends_with(']') => (h, p.parse::<u16>().ok()),
        _ => (&header[..], Some(80)),
    };
    let hh = hh.strip_prefix('[').and_then(|x| x.strip_suffix(']')).unwrap_or(hh);
    if !same(hh) || hp != Some(port) {
        return bad("request", format!("Host header {:?}, expected {}:{}", header, host, port));
    }
    mcrt::costed_choices(false);
    match ctx.close(&mut c) {
        Ok(()) => Ok(4),
        Err(e) => bad("connect", format!("close reports {}", e)),
    }
}

fn c20_run(what: usize) -> Result<u64, Viol> {
    run(&calm(), move |ctx| {
        let any = |n: usize, all: bool, fixed: usize| if all { choose(n) } else { fixed };
        let (authority, target) = match what {
            0 => (true, false),
            1 => (false, true),
            _ => (true, true),
        };
        let sc = if what == 1 { choose(2) * 2 + choose(2) } else { choose(SCHEMES.len()) };
        let ho = if what == 1 { [0, 3, 4][choose(3)] } else { choose(HOSTS.len()) };
        let po = if what == 1 { [0, 4][choose(2)] } else { choose(PORTS.len()) };
        let case = url_case(
            sc,
            any(USERS.len(), authority, 0),
            ho,
            po,
            if what == 0 { [0, 2][choose(2)] } else { any(PATHS.len(), target, 0) },
            if what == 0 { [0, 3][choose(2)] } else { any(QUERIES.len(), target, 0) },
            if what == 0 { 0 } else { any(FRAGMENTS.len(), target, 0) },
        );
        let via = [Via::Connect, Via::Stream, Via::ConnectFails][if what == 2 { 0 } else { choose(3) }];
        let r = c20_case(ctx, &case, via)?;
        Ok(mcrt::explore::digest(&format!("{} {}", case.url, r)))
    })
}

/// Long parts: nothing is cut or dropped.
fn c20_long(sizes: &'static [usize]) -> Result<u64, Viol> {
    let cfg = WorldCfg {
        max_steps: 1_000_000,
        ..calm()
    };
    run(&cfg, move |ctx| {
        let n = sizes[choose(sizes.len())];
        let what = choose(7);
        let long: String = (0..n).map(|i| (b'a' + (i % 23) as u8) as char).collect();
        let q = |k: &str, v: &str| (k.to_string(), v.to_string());
        let (path, query, text): (String, Vec<(String, String)>, String) = match what {
            0 => (format!("/{}", long), vec![], format!("/{}", long)),
            1 => {
                let p: String = (0..n / 4).map(|i| format!("/p{}", i % 10)).collect();
                (p.clone() + "/", vec![], p + "/")
            }
            2 => ("/".into(), vec![q("a", &long), q("z", "9")], format!("/?a={}&z=9", long)),
            3 => ("/s/".into(), vec![q(&long, "1"), q("z", "9")], format!("/s/?{}=1&z=9", long)),
            4 => {
                let v: Vec<(String, String)> = (0..n / 4).map(|i| (format!("k{}", i), (i % 7).to_string())).collect();
                let t: Vec<String> = v.iter().map(|(a, b)| format!("{}={}", a, b)).collect();
                let sep = if t.is_empty() { "" } else { "?" };
                ("/".into(), v.clone(), format!("/{}{}", sep, t.join("&")))
            }
            5 => ("/".into(), vec![q("a", &" &=".repeat(n / 9)), q("b", "")], format!("/?a={}&b=", "+%26%3D".repeat(n / 9))),
            _ => ("/".into(), vec![q("a", "1")], format!("/?a=1#{}", long)),
        };
        let mut case = url_case(choose(2), 0, 0, 0, 0, 0, 0);
        case.url += &text;
        case.path = path;
        case.query = query;
        let via = [Via::Connect, Via::Stream][choose(2)];
        Ok(c20_case(ctx, &case, via)? + 10 * n as u64)
    })
}

fn c20_refused() -> Result<u64, Viol> {
    run(&calm(), move |ctx| {
        let case = UrlCase {
            url: REFUSED[choose(REFUSED.len())].to_string(),
            want: None,
            path: String::new(),
            query: Vec::new(),
        };
        let via = [Via::Connect, Via::Stream][choose(2)];
        c20_case(ctx, &case, via)
    })
}

/// A slow connector, in every order with the timer: connecting takes what it takes, the client comes up.
fn c20_async() -> Result<u64, Viol> {
    run(&WorldCfg::default(), move |ctx| {
        let (sc, po) = (choose(2), choose(3));
        let case = url_case(sc, 0, 0, po, 2, 3, 0);
        let (tx, rx) = futures::channel::oneshot::channel::<()>();
        let calls: Arc<Mutex<Vec<(String, u16)>>> = Arc::default();
        let rx = Arc::new(Mutex::new(Some(rx)));
        let (c2, net) = (calls.clone(), ctx.net.clone());
        let connect = move |h: String, p: u16| {
            c2.lock().unwrap().push((h, p));
            let rx = rx.lock().unwrap().take();
            let net = net.clone();
            async move {
                if let Some(rx) = rx {
                    let _ = rx.await;
                }
                Ok::<_, std::io::Error>(net.stream())
            }
        };
        sched::spawn("network", false, move || {
            mcrt::point("connection established");
            let _ = tx.send(());
        });
        let r = sched::block_on("connecting", Client::connect(&case.url, connect, &ctx.spawner));
        if calls.lock().unwrap().len() != 1 {
            return Err(viol("endpoint", format!("the connector was called {} times", calls.lock().unwrap().len())));
        }
        match r {
            Ok(mut c) => match ctx.close(&mut c) {
                Ok(()) => Ok(0),
                Err(e) => Err(viol("connect", format!("close reports {}", e))),
            },
            Err(e) => Err(viol("connect", format!("connecting failed: {}", e))),
        }
    })
}

pub fn c20(tier: Tier) -> Vec<Scenario> {
    let sizes = tier.pick(&[0usize, 1, 63, 64, 127, 128, 255, 256, 257, 511, 512, 513, 1_023, 1_025, 2_049, 4_097, 8_193, 20_000][..], &[
        0, 1, 2, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513, 999, 1_000, 1_023, 1_024, 1_025, 2_047, 2_048, 2_049, 4_095, 4_096, 4_097,
        8_191, 8_192, 8_193, 16_385, 20_000, 32_769, 60_000,
    ]);
    let mut v = vec![
        scenario("refused", 0, c20_refused),
        scenario("authorities", 0, || c20_run(0)),
        scenario("targets", 0, || c20_run(1)),
        scenario("slow connector", 2, c20_async),
        scenario("long parts", 0, move || c20_long(sizes)),
    ];
    if tier == Tier::Thorough {
        v.push(scenario("full product", 0, || c20_run(2)));
    }
    v
}

// ---------------------------------------------------------------- C23

fn c23_items(id: u64) -> Vec<Vec<Fr>> {
    let p = |n: usize| format!("{{\"_placeholder\":true,\"num\":{}}}", n);
    vec![
        vec![a(b"A")],
        // an attachment that would be a packet if it were text
        vec![a(b"2[\"x\",5]")],
        vec![a(b"")],
        vec![Fr::T(format!("451-[\"x\",{}]", p(0)))],
        vec![Fr::T(format!("452-/a,7[\"x\",{},1,{}]", p(1), p(0)))],
        vec![Fr::T(format!("453-[\"x\",{{\"k\":[{},{}]}},{}]", p(2), p(0), p(1)))],
        vec![Fr::T(format!("461-{}[{}]", id, p(0)))],
        vec![Fr::T("452-[\"x\"]".into())],
        vec![t("450-[\"x\",0]")],
        vec![t("42[\"x\",\"plain\"]")],
        vec![t("40/a,")],
        vec![t("2")],
        vec![t("3")],
        vec![Fr::B(vec![0x34, 1])],
        vec![Fr::B(vec![])],
        vec![Fr::WsPing],
        vec![t("4AA==")],
        // the empty text message
        vec![t("4")],
        vec![t("4 ")],
        vec![t("bAA==")],
        vec![a(b"51-[\"x\",{\"_placeholder\":true,\"num\":0}]")],
    ]
}

fn c23_world(ctx: &Ctx) -> Result<(Client, Reg, u64), Viol> {
    let mut c = ctx.connect()?;
    let mut reg = Reg::default();
    crate::client_a::set_handler(&mut c, &mut reg, &ctx.obs, "/", "x", "X");
    crate::client_a::set_handler(&mut c, &mut reg, &ctx.obs, "/a", "x", "AX");
    emit(&mut c, &ctx.obs, "/", "e", Some("cb"), false, None);
    sched::settle();
    let id = crate::client_a::asked_id(ctx)?;
    reg.acks.insert(("/".into(), id), "cb".into());
    ctx.net.take();
    Ok((c, reg, id))
}

/// Step by step: after every message exactly the complete packets have been delivered.
fn c23_history(depth: usize, small: bool) -> Result<u64, Viol> {
    run(&calm(), move |ctx| {
        let (mut c, mut reg, id) = c23_world(ctx)?;
        let items = c23_items(id);
        let mut ses = Session::default();
        let mut want = Vec::new();
        let (mut failed, mut open) = (false, false);
        let mut sent: Vec<String> = Vec::new();
        let mut pongs = 0;
        for _ in 0..depth {
            let n = if small { 10 } else { items.len() };
            let fs = &items[choose(n)];
            step();
            crate::client_a::push_frames(ctx, fs);
            sched::settle();
            for f in fs {
                sent.push(f.show());
                match ses.feed(f) {
                    Out::Nothing => {}
                    Out::Pong => pongs += 1,
                    Out::Deliver(d) => match reg.dispatch(&d) {
                        Ran::Lines(l) => want.extend(l),
                        Ran::Error => failed = true,
                    },
                    Out::Error => failed = true,
                    Out::Open => open = true,
                }
            }
            if open || ses.tainted() {
                // Reported now or when complete; never delivered.
                open = true;
                break;
            }
            eq_list("delivery", &format!("handlers called after {:?}", sent), &ctx.obs.get(), &want)?;
            if failed {
                break;
            }
        }
        if failed || open {
            // Whatever follows: the packet beyond repair is not delivered.
            let before = ctx.obs.get().len();
            if open {
                let mut n = 0;
                while ses.awaiting() && n < 4 {
                    crate::client_a::push_frames(ctx, &[a(b"fill")]);
                    let _ = ses.feed(&a(b"fill"));
                    n += 1;
                }
            } else {
                ctx.net.text(&event_text("/", None, "x", ",\"after\""));
                ctx.net.push(&att(b"after"));
            }
            sched::settle();
            if ctx.obs.get().len() != before {
                return Err(viol(
                    "delivery",
                    format!("after {:?} a packet was delivered: {:?}", sent, &ctx.obs.get()[before..]),
                ));
            }
            failed = true;
        } else {
            let n = ctx.net.got().iter().filter(|m| **m == Msg::Text("3".into())).count();
            if n != pongs {
                return Err(viol("delivery", format!("{} pongs for {} pings after {:?}", n, pongs, sent)));
            }
        }
        let awaiting = ses.awaiting();
        let r = ctx.close(&mut c);
        match (r, failed) {
            (Ok(()), true) => Err(viol("unreported", format!("close reports success after {:?}", sent))),
            (Err(e), false) if !awaiting => Err(viol("result", format!("close reports {} after {:?}", e, sent))),
            _ => {
                eq_list("delivery", &format!("handlers called after {:?}", sent), &ctx.obs.get(), &want)?;
                Ok(dig(&[want]))
            }
        }
    })
}

/// In one burst, with reads split anywhere.
fn c23_burst(n: usize) -> Result<u64, Viol> {
    run(&calm(), move |ctx| {
        let (mut c, reg, id) = c23_world(ctx)?;
        let items = c23_items(id);
        let mut fs = Vec::new();
        for _ in 0..n {
            // whole packets, in parts with heartbeats in between
            match choose(6) {
                0 => {
                    fs.extend(items[3].clone());
                    if choose(2) == 1 {
                        fs.push(t("2"))
                    }
                    fs.push(a(&[fs.len() as u8]));
                }
                1 => {
                    fs.extend(items[4].clone());
                    fs.push(a(&[fs.len() as u8, 1]));
                    if choose(2) == 1 {
                        fs.push(Fr::WsPing);
                        fs.push(t("3"))
                    }
                    fs.push(a(b""));
                }
                2 => fs.extend(items[9].clone()),
                3 => fs.extend(items[8].clone()),
                4 => fs.push(t("2")),
                _ => {
                    fs.extend(items[5].clone());
                    fs.push(a(b"1"));
                    fs.push(a(b"22"));
                    fs.push(a(b"333"));
                }
            }
        }
        if choose(2) == 1 {
            // and an incomplete one at the end
            fs.extend(items[4].clone());
            fs.push(a(b"z"));
        }
        let fragmented = choose(2) == 1;
        ctx.net.with(|n| {
            n.rsplit = Split::Few;
            n.rpend = true
        });
        let bytes: Vec<u8> = fs.iter().flat_map(|f| if fragmented { f.fragmented() } else { f.bytes() }).collect();
        log_line(|| format!("server sends {:?}", fs.iter().map(Fr::show).collect::<Vec<_>>()));
        ctx.net.push(&bytes);
        ctx.settle()?;
        let e = expect(&fs, &reg);
        eq_list("delivery", "handlers called", &ctx.obs.get(), &e.calls)?;
        let r = ctx.close(&mut c);
        if let (Err(er), false) = (&r, e.may_error) {
            return Err(viol("result", format!("close reports {}", er)));
        }
        eq_list("delivery", "handlers called", &ctx.obs.get(), &e.calls)?;
        Ok(dig(&[e.calls]))
    })
}

/// The decoder: headers with every list of attachments.
fn c23_decoder() -> Result<u64, Viol> {
    let heads: &[(&str, u64)] = &[
        ("51-[\"x\",{\"_placeholder\":true,\"num\":0}]", 1),
        ("52-/a,7[\"x\",{\"_placeholder\":true,\"num\":1},{\"_placeholder\":true,\"num\":0}]", 2),
        ("53-[\"x\",[{\"_placeholder\":true,\"num\":2},{\"_placeholder\":true,\"num\":0}],{\"_placeholder\":true,\"num\":1}]", 3),
        ("61-0[{\"_placeholder\":true,\"num\":0}]", 1),
        ("62-/a,3[{\"_placeholder\":true,\"num\":0}]", 2),
        ("50-[\"x\"]", 0),
    ];
    let (h, n) = heads[choose(heads.len())];
    let len = choose(6);
    const TEXTS: [&str; 7] = ["text", "", "bAAEC", "AAEC", "2[\"x\"]", "51-[\"x\",{\"_placeholder\":true,\"num\":0}]", "\u{4}"];
    let texts: Vec<usize> = (0..len).map(|_| choose_cost(1 + TEXTS.len())).collect();
    let kinds: Vec<bool> = texts.iter().map(|k| *k == 0).collect();
    let shape = choose(2);
    let content = |i: usize| if shape == 0 { vec![i as u8; i + 1] } else { vec![7; i / 2] };
    let atts: Vec<EMsg> = texts
        .iter()
        .enumerate()
        .map(|(i, k)| match k {
            0 => EMsg::Binary(content(i).into()),
            k => EMsg::Text(TEXTS[k - 1].to_string().into()),
        })
        .collect();
    step();
    let bad = |m: String| Err(viol("decoder", format!("{:?} with {:?}: {}", h, kinds, m)));
    let r = guard(|| match socket::deserialize(EMsg::Text(h.to_string().into())) {
        Err(e) => Err(e.to_string()),
        Ok(DeserializeResult::Packet(p)) => Ok((0, Some(p))),
        Ok(DeserializeResult::DataNeeded(p)) => {
            let k = crate::vals::n64(p.attachments());
            Ok((k, socket::deserialize_partial(p, atts).ok()))
        }
    });
    let (announced, p) = match r {
        Ok(Ok(x)) => x,
        Ok(Err(e)) => return bad(format!("header is refused: {}", e)),
        Err(p) => return Err(viol("panic", format!("{:?} with {:?}: {}", h, kinds, p))),
    };
    if announced != n {
        return bad(format!("{} attachments announced", announced));
    }
    if n == 0 {
        return match p {
            Some(_) => Ok(0),
            None => bad("not a complete packet".into()),
        };
    }
    let whole = kinds.len() as u64 == n && kinds.iter().all(|b| *b);
    let p = match (p, whole) {
        (None, false) => return Ok(1),
        (None, true) => return bad("refused".into()),
        (Some(_), false) => return bad("accepted".into()),
        (Some(p), true) => p,
    };
    let shown = match p.data() {
        Data::Event { args, .. } | Data::Ack { args, .. } => show_args(&args),
        d => return bad(format!("decoded as {:?}", d)),
    };
    let want = match parse_packet(h) {
        crate::reference::Parsed::Ok(packet) => crate::model::Delivery {
            packet,
            atts: (0..n as usize).map(content).collect(),
        }
        .shown(),
        _ => unreachable!(),
    };
    if shown != want {
        return bad(format!("arguments {}, expected {}", shown, want));
    }
    Ok(2)
}

/// Packets with very many attachments, whole or one short.
fn c23_volume(counts: &'static [usize]) -> Result<u64, Viol> {
    let cfg = WorldCfg {
        max_steps: 2_000_000,
        ..calm()
    };
    run(&cfg, move |ctx| {
        let (mut c, mut reg, _) = c23_world(ctx)?;
        let n = counts[choose(counts.len())];
        let end = choose(4);
        let twice = choose(2) == 1;
        let pings = choose(2) == 1;
        log_line(|| format!("{} attachments, ending {}, twice: {}", n, end, twice));
        let p = |k: usize| format!("{{\"_placeholder\":true,\"num\":{}}}", k);
        let mut ses = Session::default();
        let mut want = Vec::new();
        let mut failed = false;
        for round in 0..1 + twice as usize {
            let head = if round == 0 { "\"x\"," } else { "\"x\",2," };
            let mut fs = vec![Fr::T(format!("45{}-[{}{},[{}],{}]", n, head, p(n - 1), p(n / 2), p(0)))];
            // 1: one is missing, and text instead; 2: one is missing, and the session ends; 3: one too many
            let last = round == twice as usize;
            let m = match end {
                1 | 2 if last => n - 1,
                3 if last => n + 1,
                _ => n,
            };
            for i in 0..m {
                fs.push(a(&(i as u32).to_be_bytes()));
                if pings && i % 100 == 99 {
                    fs.push(t("2"));
                }
            }
            if end == 1 && last {
                fs.push(t("42[\"x\",\"text\"]"));
            }
            for ch in fs.chunks(1_000) {
                ctx.net.push(&ch.iter().flat_map(|f| f.bytes()).collect::<Vec<u8>>());
                sched::settle();
            }
            for f in &fs {
                match ses.feed(f) {
                    Out::Deliver(d) => match reg.dispatch(&d) {
                        Ran::Lines(l) => want.extend(l),
                        Ran::Error => failed = true,
                    },
                    Out::Error => failed = true,
                    _ => {}
                }
            }
        }
        ctx.settle()?;
        eq_list("delivery", "handlers called", &ctx.obs.get(), &want)?;
        let awaiting = ses.awaiting();
        match (ctx.close(&mut c), failed) {
            (Ok(()), true) => return Err(viol("unreported", "close reports success")),
            (Err(e), false) if !awaiting => return Err(viol("result", format!("close reports {}", e))),
            _ => (),
        }
        eq_list("delivery", "handlers called", &ctx.obs.get(), &want)?;
        Ok(dig(&[want]))
    })
}

pub fn c23(tier: Tier) -> Vec<Scenario> {
    let counts = tier.pick(&[9usize, 10, 11, 255, 256, 257, 1000, 65_536][..], &[9, 10, 11, 99, 100, 101, 127, 128, 255, 256, 257, 300, 1000, 32_768, 65_535, 65_536, 65_537, 140_000][..]);
    let d = tier.pick(5, 6);
    let mut v = vec![
        scenario("decoder", 6, c23_decoder),
        scenario("many attachments", 0, move || c23_volume(counts)),
        scenario("histories of 4", 0, || c23_history(4, false)),
        idling(scenario("histories of 4", 0, || c23_history(4, false))),
        scenario("bursts of 2", 1, || c23_burst(2)),
        scenario(format!("histories of {}", d), 0, move || c23_history(d, false)),
        scenario(format!("histories of {}, packets only", d + 1), 0, move || c23_history(d + 1, true)),
    ];
    if tier == Tier::Thorough {
        v.push(scenario("bursts of 3", 1, || c23_burst(3)));
        v.push(scenario("histories of 7, packets only", 0, || c23_history(7, true)));
    }
    v
}
