//! Check C25: inspecting received packets.
use std::collections::{BTreeMap, HashMap};

use mcrt::explore::{choose, digest, log_line, step, Scenario, Viol};
use mcrt::sched::guard;
use serde::de::{DeserializeOwned, IgnoredAny};
use serde_json::Value;
use socket_io_protocol::engine::{Decoder, Message as EMsg};
use socket_io_protocol::socket::{Arg, Args, Data, Packet};

use crate::args::{args_of, decode, texts1, texts2};
use crate::codec::{engine_alphabet, json_args, ns_tokens, numbers, short};
use crate::driver::{scenario, viol, Tier};
use crate::reference::{from_value, split_array, J};
use crate::vals::{edges, pick, words};

fn sure<T>(what: &str, text: &str, f: impl FnOnce() -> T) -> Result<T, Viol> {
    guard(f).map_err(|p| viol("panic", format!("{} in {}: {}", what, short(text), p)))
}

/// Reads into types of several kinds; only that it comes back matters.
fn reads(a: &Arg) {
    fn r<T: DeserializeOwned>(a: &Arg) {
        let _ = a.deserialize::<T>().map_err(|e| format!("{} {:?}", e, e));
    }
    r::<Value>(a);
    r::<IgnoredAny>(a);
    r::<String>(a);
    r::<Vec<u8>>(a);
    r::<Vec<Value>>(a);
    r::<Vec<Option<Vec<u8>>>>(a);
    r::<(u8, Value)>(a);
    r::<[u8; 3]>(a);
    r::<HashMap<String, Value>>(a);
    r::<BTreeMap<String, Vec<u8>>>(a);
    r::<HashMap<i8, IgnoredAny>>(a);
    r::<Option<Box<u64>>>(a);
    r::<f32>(a);
    r::<i128>(a);
    r::<char>(a);
    r::<()>(a);
    r::<bool>(a);
    let _ = a.deserialize::<&str>().map_err(|e| e.to_string());
    let _ = a.deserialize::<&serde_json::value::RawValue>().map_err(|e| e.to_string());
}

fn shown(v: &Value) -> J {
    from_value(v)
}

/// What the arguments of a packet show, by every access path.
fn inspect_args(text: &str, args: &Args, few: bool) -> Result<(), Viol> {
    let n = args.len();
    let bad = |m: String| Err(viol("arguments", format!("{}: {}", short(text), m)));
    if args.is_empty() != (n == 0) {
        return bad(format!("{} arguments, empty {}", n, args.is_empty()));
    }
    let (count, twice) = sure("iterating", text, || (args.iter().count(), args.iter().chain(args.iter()).count()))?;
    if count != n || twice != 2 * n {
        return bad(format!("{} arguments, but {} and {} are iterated", n, count, twice));
    }
    for past in [n, n + 1, n + 100, 1 << 32, usize::MAX / 2, usize::MAX - 1, usize::MAX] {
        if sure("indexing", text, || args.get(past).is_some())? {
            return bad(format!("an argument at {} of {}", past, n));
        }
    }
    let copy = args.clone();
    let mut texts = Vec::new();
    for (i, it) in args.iter().enumerate() {
        step();
        let a = match args.get(i) {
            Some(a) => a,
            None => return bad(format!("no argument at {} of {}", i, n)),
        };
        let p = sure("printing", text, || a.to_string())?;
        if sure("printing", text, || (it.to_string(), copy.get(i).map(|c| c.to_string())))? != (p.clone(), Some(p.clone())) {
            return bad(format!("argument {} prints differently when iterated, copied or indexed", i));
        }
        sure("printing for debugging", text, || format!("{:?} {:#?}", a, a))?;
        let v = sure("dynamic reading", text, || a.to_json_value().map_err(|e| format!("{} {:?}", e, e)))?;
        if let Ok(v) = &v {
            match serde_json::from_str::<Value>(&p) {
                Ok(q) if shown(&q) == shown(v) => {}
                q => return bad(format!("argument {} reads as {}, prints {} ({:?})", i, v, short(&p), q.is_ok())),
            }
        }
        if !few {
            sure("reading", text, || reads(&a))?;
        }
        texts.push((p, v.ok()));
    }
    for k in 0..=n.min(3) {
        let s = sure("skipping", text, || args.iter().skip(k).map(|a| a.to_string()).collect::<Vec<_>>())?;
        if !s.iter().eq(texts[k..].iter().map(|t| &t.0)) {
            return bad(format!("iterating from {} shows {:?}", k, s));
        }
    }
    if sure("iterating past the end", text, || args.iter().nth(n).is_some())? {
        return bad("an argument past the end when iterating".into());
    }
    let all = sure("printing", text, || args.to_string())?;
    if texts.iter().all(|t| t.1.is_some()) {
        let parts = split_array(&all);
        let same = parts.len() == n
            && all.starts_with('[')
            && parts.iter().zip(&texts).all(|(x, t)| serde_json::from_str::<Value>(x).ok().as_ref().map(shown) == t.1.as_ref().map(shown));
        if !same {
            return bad(format!("{} arguments print {}", n, short(&all)));
        }
    }
    sure("printing for debugging", text, || format!("{:?}", args).len())?;
    Ok(())
}

/// Everything a packet shows; `want` are the texts of its arguments.
fn inspect(text: &str, p: &Packet, few: bool) -> Result<u64, Viol> {
    let shows = |p: &Packet| -> Result<String, Viol> {
        let s = sure("printing", text, || p.to_string())?;
        sure("printing for debugging", text, || format!("{:?} {:?}", p, p.data()).len())?;
        if sure("printing", text, || p.data().to_string())? != s {
            return Err(viol("packet", format!("{} prints differently from its data", short(text))));
        }
        Ok(s)
    };
    let first = shows(p)?;
    let word = match p.data() {
        Data::Connect => "Connect",
        Data::Disconnect => "Disconnect",
        Data::Event { .. } => "Event",
        Data::Ack { .. } => "Ack",
    };
    if !first.to_lowercase().contains(&word.to_lowercase()) {
        return Err(viol("packet", format!("{} of kind {} prints {}", short(text), word, short(&first))));
    }
    if let Data::Event { id, args } = p.data() {
        inspect_args(text, &args, few)?;
        let a = args.to_string();
        if !first.contains(&a) || id.map_or(false, |i| !first.contains(&i.to_string())) {
            return Err(viol("packet", format!("{} prints {}", short(text), short(&first))));
        }
    }
    if let Data::Ack { id, args } = p.data() {
        inspect_args(text, &args, few)?;
        if !first.contains(&args.to_string()) || !first.contains(&id.to_string()) {
            return Err(viol("packet", format!("{} prints {}", short(text), short(&first))));
        }
    }
    // a copy shows the same, also after the original is gone, and so does the packet elsewhere
    let copy = p.clone();
    let ns = p.namespace().to_string();
    let moved = Box::new(copy.clone());
    drop(copy);
    if shows(&moved)? != first || moved.namespace() != ns {
        return Err(viol("packet", format!("a copy of {} shows {}", short(text), moved)));
    }
    Ok(digest(&first))
}

fn both(text: &str, att: &[Vec<u8>], few: bool) -> Result<u64, Viol> {
    match sure("decoding", text, || decode(text, att))? {
        Ok(p) => inspect(text, &p, few),
        Err(e) => Ok(digest(&e)),
    }
}

/// Values that are hard to read.
fn hostile() -> Vec<String> {
    let mut v: Vec<String> = [
        "\"\\ud800\"",
        "\"\\udc00\\ud800\"",
        "[\"a\",\"\\ud834\"]",
        "{\"\\ud800\":1}",
        "{\"a\":1,\"a\":2}",
        "1e999",
        "-1e999",
        "[1e400]",
        "123456789012345678901234567890",
        "-0",
        "-0.0",
        "1E-400",
        "\"\\u0000\"",
        "\"\\u001b[31m\"",
        "\"{}%s{0}\"",
        "\"\\\\\"",
        "\"],[\"",
        "\", \"",
        "{\"],[\":\"}\"}",
        "\"\\u2028\u{2028}\u{feff}\"",
    ]
    .iter()
    .map(|s| s.to_string())
    .collect();
    for d in [100, 126, 127, 128, 129, 1_000, 5_000] {
        v.push(format!("{}{}", "[".repeat(d), "]".repeat(d)));
        v.push(format!("{}1{}", "{\"a\":".repeat(d), "}".repeat(d)));
        v.push(format!("{}{{\"_placeholder\":true,\"num\":0}}{}", "[".repeat(d), "]".repeat(d)));
    }
    v
}

/// Placeholders and what looks like them.
fn placeholders() -> Vec<String> {
    let mut v = Vec::new();
    let mut nums: Vec<String> = edges().iter().map(|e| e.to_string()).collect();
    nums.extend(
        ["-1", "0.0", "0.5", "1e0", "-0", "18446744073709551616", "1e400", "\"0\"", "null", "true", "[]", "{}", "\"\\ud800\""].iter().map(|s| s.to_string()),
    );
    for n in nums {
        v.push(format!("{{\"_placeholder\":true,\"num\":{}}}", n));
        v.push(format!("{{\"num\":{},\"_placeholder\":true}}", n));
    }
    for t in ["true", "false", "null", "1", "\"true\"", "{}", "{\"_placeholder\":true,\"num\":0}", "[1e999]"] {
        v.push(format!("{{\"_placeholder\":{},\"num\":0}}", t));
        v.push(format!("{{\"_placeholder\":{}}}", t));
        v.push(format!("{{\"_placeholder\":true,\"num\":0,\"x\":{}}}", t));
        v.push(format!("{{\"x\":{},\"_placeholder\":true,\"num\":0}}", t));
    }
    v.push("{\"\\u005fplaceholder\":true,\"num\":0}".into());
    v.push("{\"_placeholder\":true,\"n\\u0075m\":1}".into());
    v.push("{\"_placeholder\":true,\"num\":0,\"num\":1}".into());
    v.push("{ \"_placeholder\" :\ttrue,\r\n\"num\" : 1 }".into());
    v
}

fn attachments(k: u64) -> Vec<Vec<u8>> {
    (0..k).map(|i| (0..i as u8 * 3).collect()).collect()
}

/// A packet around one argument, of each kind, without attachments or with some.
fn around(value: &str) -> Result<u64, Viol> {
    let mut h = 0;
    for (head, k) in [("2", 0), ("37", 0), ("51-", 1), ("52-/n,9", 2), ("63-0", 3)] {
        for t in [
            format!("{}[\"e\",{}]", head, value),
            format!("{}[\"e\",[{}],{},1]", head, value, value),
            format!("{}[\"e\",{{\"a\":{}}},{{\"_placeholder\":true,\"num\":0}}]", head, value),
        ] {
            h ^= both(&t, &attachments(k), false)?;
        }
    }
    Ok(h)
}

fn chunk(v: Vec<String>, n: usize) -> Vec<String> {
    let c: Vec<Vec<String>> = v.chunks(n).map(|c| c.to_vec()).collect();
    let c = pick(&c);
    log_line(|| format!("{:?}", c.iter().map(|x| short(x)).collect::<Vec<_>>()));
    c
}

fn each(v: Vec<String>, f: impl Fn(&str) -> Result<u64, Viol>) -> Result<u64, Viol> {
    let mut h = 0;
    for x in &v {
        h ^= f(x)?;
    }
    Ok(h)
}

/// Long texts of wide characters, readable or not, so that cutting at any length cuts a character.
fn long(sizes: &'static [usize]) -> Result<u64, Viol> {
    let ch = pick(&['a', 'é', '€', '😀']);
    let shift = choose(ch.len_utf8());
    let n = pick(sizes);
    let w = format!("{}{}", "a".repeat(shift), ch.to_string().repeat(n / ch.len_utf8()));
    log_line(|| format!("{} bytes of {:?} after {} of 'a'", n, ch, shift));
    let mut h = 0;
    for v in [
        format!("\"{}\"", w),
        format!("[1e999,\"{}\"]", w),
        format!("[\"{}\",1e999]", w),
        format!("[\"{}\",\"\\ud800\"]", w),
        format!("\"\\ud800{}\"", w),
        format!("{{\"{}\":-1e999}}", w),
        format!("{{\"{}\":{{\"_placeholder\":true,\"num\":9}}}}", w),
        format!("{{\"_placeholder\":true,\"num\":\"{}\"}}", w),
        format!("{{\"_placeholder\":true,\"x\":\"{}\"}}", w),
    ] {
        for (head, k) in [("2", 0), ("51-/n,9", 1), ("37", 0)] {
            h ^= both(&format!("{}[\"e\",{}]", head, v), &attachments(k), false)?;
        }
    }
    // names, and texts that are no packets
    for t in [
        format!("2[\"{}\"]", w),
        format!("2[\"{}\",1e999]", w),
        format!("2/{},7[\"e\"]", w),
        format!("2[\"{}]", w),
        format!("2[\"e\",{}]", w),
        format!("2{}", w),
        w.clone(),
        format!("2/{}", w),
        format!("2[\"e\"]{}", w),
        format!("51-[\"{}\",{{\"_placeholder\":true,\"num\":7}}]", w),
    ] {
        h ^= both(&t, &attachments(1), true)?;
    }
    // the same on the level of engine packets
    for (k, t) in [format!("0{}", w), format!("0{{\"sid\":\"{}\"}}", w), w.clone(), format!("4{}", w)].into_iter().enumerate() {
        let r = sure("an engine packet", &t, || {
            let mut d = Decoder::new();
            if k > 1 {
                let _ = d.decode(tungstenite::Message::Text("0{\"sid\":\"s\",\"pingInterval\":1,\"pingTimeout\":2}".into()));
            }
            match d.decode(tungstenite::Message::Text(t.clone())) {
                Ok(p) => format!("{:?} {:?}", p, d),
                Err(e) => format!("{} {:?}", e, e),
            }
        })?;
        h ^= digest(&r);
    }
    Ok(h)
}

pub fn c25(tier: Tier) -> Vec<Scenario> {
    let sizes = tier.pick(&[30usize, 66, 130, 258, 514, 1_100, 5_000][..], &[10, 20, 30, 40, 66, 100, 130, 258, 514, 1_100, 2_060, 5_000, 9_000, 70_000, 300_000]);
    let lens = tier.pick(&[0usize, 1, 2, 3, 7, 8, 9, 15, 16, 17, 63, 64, 65, 255, 256, 257, 4_096, 70_000][..], &[
        0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 999, 1_000, 4_096, 65_535, 65_536, 70_000, 300_000,
    ]);
    let shapes = tier.pick(4, 5);
    vec![
        scenario("values of every form", 0, || {
            let mut v = texts1();
            v.extend(texts2());
            each(chunk(v, 10), around)
        }),
        scenario("values that are hard to read", 0, || each(chunk(hostile(), 3), around)),
        scenario("placeholders and what looks like them", 0, || each(chunk(placeholders(), 4), around)),
        scenario("strings of every form", 0, || {
            let w: Vec<String> = words().iter().map(|w| crate::reference::quote(w)).collect();
            each(chunk(w, 20), around)
        }),
        scenario("long texts", 0, move || long(sizes)),
        scenario("headers of every form", 0, || {
            let n = numbers();
            let head = format!("{}{}{}", pick(&["0", "1", "2", "3", "4", "5", "51-", "52-", "6", "62-"]), pick(&ns_tokens()), pick(&[vec![""], n].concat()));
            log_line(|| head.clone());
            let mut h = 0;
            for a in json_args() {
                for k in [0, 1, 2] {
                    h ^= both(&format!("{}{}", head, a), &attachments(k), true)?;
                }
            }
            Ok(h)
        }),
        scenario("argument lists of every length", 0, move || {
            let n = pick(lens);
            let k = choose(4);
            let arg = |i: usize| match k {
                0 => i.to_string(),
                1 => format!("\"s{}\"", i),
                2 => format!(" [{}, {{\"a\":\"],\"}}]\n", i),
                _ => format!("{{\"_placeholder\":true,\"num\":{}}}", i % 3),
            };
            let list: Vec<String> = (0..n).map(arg).collect();
            let head = if k == 3 { "63-5" } else { "35" };
            let text = format!("{}[{}]", head, list.join(","));
            log_line(|| short(&text));
            let p = match decode(&text, &attachments(3)) {
                Ok(p) => p,
                Err(_) if n == 0 => return Ok(0),
                Err(e) => return Err(viol("packet", format!("{} is rejected: {}", short(&text), e))),
            };
            if args_of(&p).len() != n {
                return Err(viol("arguments", format!("{} arguments instead of {} in {}", args_of(&p).len(), n, short(&text))));
            }
            inspect(&text, &p, true)
        }),
        scenario("argument lists of every mix", 0, move || {
            let parts = ["1", "\"\\ud800\"", "1e999", "{\"_placeholder\":true,\"num\":0}", "{\"_placeholder\":true,\"num\":9}", "{\"_placeholder\":true}", "\", [\"", "[]"];
            let n = choose(shapes + 1);
            let list: Vec<&str> = (0..n).map(|_| pick(&parts)).collect();
            let mut h = 0;
            for (head, k) in [("21", 0), ("51-2", 1), ("31", 0), ("61-2", 1)] {
                let text = format!("{}[{}]", head, [vec!["\"e\""], list.clone()].concat().join(","));
                h ^= both(&text, &attachments(k), true)?;
            }
            Ok(h)
        }),
        scenario("engine packets and errors", 0, || {
            let a = engine_alphabet();
            let (x, y) = (pick(&a), pick(&a));
            let show = format!("{:?} {:?}", x, y);
            let mut d = Decoder::new();
            let mut h = String::new();
            for m in [x, y] {
                let r = sure("an engine packet", &show, || match d.decode(m) {
                    Ok(p) => format!("{:?} {:?} {:?}", p, p.clone(), d),
                    Err(e) => format!("{} {:?}", e, e),
                })?;
                h += &r;
            }
            Ok(digest(&h))
        }),
        scenario("binary messages and text attachments", 0, || {
            let n = choose(4);
            let data: Vec<u8> = (0..pick(&[0usize, 1, 300, 70_000])).map(|x| x as u8).collect();
            let as_text = choose(2) == 1;
            let r = sure("an attachment", "51-[..]", || {
                let m = || if as_text { EMsg::Text("é]\u{0}".repeat(data.len()).into()) } else { EMsg::Binary(data.clone().into()) };
                let first = match socket_io_protocol::socket::deserialize(m()) {
                    Ok(_) => String::new(),
                    Err(e) => format!("{} {:?}", e, e),
                };
                let p = socket_io_protocol::socket::deserialize(EMsg::Text("52-[\"e\"]".to_string().into()));
                match p {
                    Ok(socket_io_protocol::socket::DeserializeResult::DataNeeded(p)) => {
                        match socket_io_protocol::socket::deserialize_partial(p, (0..n).map(|_| m())) {
                            Ok(p) => format!("{} {} {:?}", first.len(), p, p).len(),
                            Err(e) => format!("{} {} {:?}", first.len(), e, e).len(),
                        }
                    }
                    _ => 0,
                }
            })?;
            Ok(r as u64)
        }),
    ]
}
