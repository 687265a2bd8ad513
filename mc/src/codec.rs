//! Checks C01–C05 and C08: packet building, decoding, engine sessions, subslices.
use mcrt::explore::{choose, digest, log_line, step, Scenario, Viol};
use mcrt::sched::guard;
use owned_subslice::OwnedSubslice;
use socket_io_protocol::engine::{self, Decoder, Message as EMsg, Packet as EPacket};
use socket_io_protocol::socket::{self, Data, DeserializeResult, Packet};
use tungstenite::Message as Ws;

use crate::driver::{scenario, viol, Tier};
use crate::dynde::{set_type, Dyn, DynVal, Ty};
use crate::reference::{
    from_value, parse_json, parse_packet, placeholder, quote, resolve, to_text, Kind, Parsed, J,
};
use crate::val::{fuse_blown, set_fuse, Val};
use crate::vals::*;

pub fn short(s: &str) -> String {
    if s.chars().count() > 240 {
        let a: String = s.chars().take(180).collect();
        format!("{}…({} bytes)", a, s.len())
    } else {
        s.to_string()
    }
}

pub fn show_ws(m: &[Ws]) -> String {
    short(&format!("{:?}", m))
}

/// Split sent messages into the packet text and the attachments.
pub fn split_messages(m: &[Ws]) -> Result<(String, Vec<Vec<u8>>), String> {
    let mut it = m.iter();
    let text = match it.next() {
        Some(Ws::Text(t)) if t.starts_with('4') => t[1..].to_string(),
        o => return Err(format!("first message is {:?}", o)),
    };
    let mut att = Vec::new();
    for x in it {
        match x {
            Ws::Binary(d) if d.first() == Some(&4) => att.push(d[1..].to_vec()),
            o => return Err(format!("attachment message is {:?}", o)),
        }
    }
    Ok((text, att))
}

fn placeholders(j: &J, out: &mut Vec<u64>) {
    match j {
        J::Arr(v) => v.iter().for_each(|x| placeholders(x, out)),
        J::Obj(o) => match placeholder(o) {
            Some(n) => out.push(n),
            None => o.iter().for_each(|x| placeholders(&x.1, out)),
        },
        _ => {}
    }
}

/// Compare built messages with what was asked for.
pub fn check_built(m: &[Ws], h: &Header, args: &[J]) -> Result<(), String> {
    let (text, att) = split_messages(m)?;
    let p = match parse_packet(&text) {
        Parsed::Ok(p) => p,
        o => return Err(format!("the text {:?} is not a packet ({:?})", short(&text), o)),
    };
    let kind = if h.event.is_some() { Kind::Event } else { Kind::Ack };
    if p.kind != kind || p.binary != h.binary {
        return Err(format!("wrong type in {:?}", short(&text)));
    }
    if p.ns != h.ns {
        return Err(format!("namespace {:?} in {:?}", p.ns, short(&text)));
    }
    if p.id != h.id {
        return Err(format!("id {:?} in {:?}", p.id, short(&text)));
    }
    if p.attachments != att.len() as u64 {
        return Err(format!("{} attachments announced, {} sent", p.attachments, att.len()));
    }
    let mut want: Vec<J> = Vec::new();
    if let Some(e) = h.event {
        want.push(J::Str(e.to_string()));
    }
    want.extend(args.iter().cloned());
    if p.args.len() != want.len() {
        return Err(format!("{} arguments in {:?}, {} expected", p.args.len(), short(&text), want.len()));
    }
    let mut refs = Vec::new();
    for (t, w) in p.args.iter().zip(&want) {
        let j = parse_json(t).ok_or("argument is not JSON")?;
        if h.binary {
            placeholders(&j, &mut refs);
        }
        let j = if h.binary {
            resolve(&j, &att).ok_or_else(|| format!("placeholder out of range in {:?}", short(t)))?
        } else {
            j
        };
        if &j != w {
            return Err(format!("argument {:?} stands for {}, expected {}", short(t), short(&format!("{:?}", j)), short(&format!("{:?}", w))));
        }
    }
    for i in 0..att.len() as u64 {
        if !refs.contains(&i) {
            return Err(format!("attachment {} belongs to no argument", i));
        }
    }
    Ok(())
}

pub fn build(h: &Header, vals: &[Val]) -> Result<Result<Vec<Ws>, usize>, String> {
    guard(|| {
        let mut b = h.builder();
        for (i, v) in vals.iter().enumerate() {
            if b.serialize_arg(v).is_err() {
                return Err(i);
            }
        }
        Ok(b.finish())
    })
}

fn one_build(h: &Header, vals: &[Val], wants: &[Option<J>]) -> Result<u64, Viol> {
    step();
    let desc = || format!("{:?} {}", h, short(&format!("{:?}", vals)));
    log_line(|| format!("build {}", desc()));
    let key = || format!("build:{}", short(&format!("{:?}{:?}", h, vals)).replace(char::is_whitespace, ""));
    match build(h, vals) {
        Err(p) => Err(viol(key(), format!("building {} panics: {}", desc(), p))),
        Ok(Err(i)) => {
            if wants[i].is_none() {
                Ok(1)
            } else {
                Err(viol(key(), format!("argument {} of {} is refused", i, desc())))
            }
        }
        Ok(Ok(m)) => {
            log_line(|| format!("messages {}", show_ws(&m)));
            let mut w = Vec::new();
            for (i, x) in wants.iter().enumerate() {
                match x {
                    Some(j) => w.push(j.clone()),
                    None => {
                        return Err(viol(
                            key(),
                            format!("argument {} of {} is accepted although plain JSON refuses it", i, desc()),
                        ))
                    }
                }
            }
            check_built(&m, h, &w).map_err(|e| viol(key(), format!("{}: {}; messages {}", desc(), e, show_ws(&m))))?;
            Ok(digest(&show_ws(&m)))
        }
    }
}

fn sized(k: usize) -> Vec<Val> {
    let seq = |n: usize| Val::Seq((0..n).map(|i| Val::U8((i % 256) as u8)).collect(), true);
    let byt = |n: usize| Val::Bytes((0..n).map(|i| (i * 7 % 256) as u8).collect());
    match k {
        0..=7 => vec![seq([1, 2, 255, 256, 257, 300, 65536, 70000][k])],
        8..=15 => vec![byt([1, 2, 255, 256, 257, 300, 65536, 70000][k - 8])],
        16..=21 => (0..[2usize, 9, 10, 11, 100, 300][k - 16]).map(|i| byt(i % 5)).collect(),
        22..=24 => vec![Val::Seq((0..[10usize, 11, 101][k - 22]).map(|i| u8s(&[i as u8, 4])).collect(), true)],
        25 => (0..12).map(|i| Val::U8(i)).collect(),
        26 => (0..120).map(|i| if i % 2 == 0 { s("x") } else { b(&[i as u8]) }).collect(),
        27 => {
            let mut v = b(&[1, 2, 3]);
            for i in 0..60 {
                v = compound([3, 12, 18][i % 3], v);
            }
            vec![v]
        }
        _ => vec![Val::Seq((0..300).map(|i| Val::U16(i)).collect(), true), u8s(&[1])],
    }
}
const SIZED: usize = 29;

/// Arguments of every size, in every place where a size could matter.
fn lengths(t: Tier) -> Vec<Val> {
    const MORE: [usize; 14] = [511, 512, 513, 1023, 1024, 1025, 4095, 4096, 4097, 32768, 65534, 65535, 65536, 65537];
    let top = t.pick(300, 1100);
    let n = choose(top + MORE.len());
    let n = if n < top { n } else { MORE[n - top] };
    let bytes = |n: usize| (0..n).map(|i| (i * 7 + 4) as u8).collect::<Vec<u8>>();
    let seq = |n: usize, known: bool| Val::Seq(bytes(n).into_iter().map(Val::U8).collect(), known);
    let then = |n: usize, v: Vec<Val>| Val::Seq(bytes(n).into_iter().map(Val::U8).chain(v).collect(), true);
    let few = n.min(1100);
    match choose(10) {
        0 => vec![seq(n, true)],
        1 => vec![seq(n, false), u8s(&[1])],
        2 => vec![Val::Bytes(bytes(n))],
        3 => vec![then(n, vec![s("x")])],
        4 => vec![then(n, vec![Val::U16(1), Val::U8(2), b(&[3])])],
        5 => vec![then(n, vec![Val::None])],
        6 => (0..few).map(|i| b(&bytes(i % 3))).collect(),
        7 => vec![Val::Seq((0..few).map(|i| u8s(&[4, i as u8])).collect(), true)],
        8 => (0..few).map(|i| Val::U16(i as u16)).collect(),
        _ => vec![Val::Str("\u{e9}]".repeat(n / 2)), b(&[1])],
    }
}

fn seq_elems() -> Vec<Val> {
    vec![
        Val::U8(0),
        Val::U8(4),
        Val::U8(255),
        Val::U16(4),
        s("x"),
        Val::Some(Box::new(Val::U8(6))),
        Val::Newtype(Box::new(Val::U8(6))),
        b(&[4, 1]),
        u8s(&[2, 4]),
        Val::Unit,
        u8s(&[]),
    ]
}

fn arg_alphabet() -> Vec<Val> {
    vec![
        Val::U8(4),
        s("a,]\""),
        b(&[1, 2]),
        b(&[]),
        u8s(&[4, 3]),
        u8s(&[]),
        compound(7, u8s(&[9])),
        compound(13, b(&[7])),
        Val::Seq(vec![Val::U8(1), Val::U8(2), s("t")], true),
        Val::None,
    ]
}

fn ns_of(w: &'static str) -> &'static str {
    static ALL: std::sync::OnceLock<std::collections::HashMap<&'static str, String>> = std::sync::OnceLock::new();
    &ALL.get_or_init(|| words().iter().map(|w| (*w, format!("/{}", w))).collect())[w]
}

/// The enumerations of headers and arguments shared by C01 and C02.
fn arguments(tier: Tier) -> Vec<(&'static str, fn(Tier) -> (Header, Vec<Val>))> {
    let mut v: Vec<(&'static str, fn(Tier) -> (Header, Vec<Val>))> = vec![
        ("headers", |_| {
            let h = header_full();
            let l: Vec<Vec<Val>> = vec![
                vec![],
                vec![u8s(&[4, 1])],
                vec![s("a,\"]"), b(&[1])],
                vec![b(&[]), Val::U8(1), b(&[4])],
            ];
            (h, pick(&l))
        }),
        ("leaves", |_| {
            let h = header_few();
            let l = leaves();
            let v = pick(&l);
            (h, if choose(2) == 0 { vec![v] } else { vec![b(&[77]), v, u8s(&[78])] })
        }),
        ("one compound", |_| {
            let h = header_few();
            let l = leaves();
            (h, vec![compound(choose(COMPOUNDS), pick(&l))])
        }),
        ("two compounds", |_| {
            let h = header_few();
            let l = core_leaves();
            let v = compound(choose(COMPOUNDS), pick(&l));
            (h, vec![compound(choose(COMPOUNDS), v)])
        }),
        ("mixed sequences", |t| {
            let h = header_few();
            let n = choose(t.pick(5, 6)) + 1;
            let e = seq_elems();
            let mut v = Vec::new();
            for _ in 0..n {
                v.push(pick(&e));
            }
            let q = Val::Seq(v, choose(2) == 0);
            (h, vec![b(&[1]), q])
        }),
        ("sizes", |_| (header_few(), sized(choose(SIZED)))),
        ("names of every form", |_| {
            let w = pick(words());
            let binary = choose(2) == 1;
            let (event, ns, v) = match choose(8) {
                0 => (Some(w), "/", vec![b(&[1])]),
                1 => (Some(w), "/n", vec![]),
                2 | 3 if w.contains(&[',', '\n', '\r'][..]) => (Some(w), "/", vec![s(w)]),
                2 => (Some("e"), &*ns_of(w), vec![b(&[1])]),
                3 => (None, &*ns_of(w), vec![]),
                4 => (None, "/", vec![s(w), b(w.as_bytes()), s(w)]),
                5 => (Some(w), "/", vec![Val::Map(vec![(s(w), b(&[2])), (s("other"), s(w))], true, false)]),
                6 => (Some("e"), "/", vec![Val::Tuple(vec![b(&[4]), s(w)]), Val::Disp(w.to_string())]),
                _ => (Some(w), "/n", vec![Val::Seq(vec![Val::U8(1), s(w), u8s(&[3])], true)]),
            };
            let id = if choose(2) == 1 || event.is_none() { Some(7) } else { None };
            (Header { event, ns, id, binary }, v)
        }),
        ("numbers of every size", |_| {
            let n = pick(&edges());
            let binary = choose(2) == 1;
            let h = |e: bool, id: Option<u64>| Header {
                event: if e { Some("e") } else { None },
                ns: if n % 2 == 0 { "/" } else { "/n" },
                id,
                binary,
            };
            let big = n as u128;
            match choose(7) {
                0 => (h(true, Some(n)), vec![b(&[1])]),
                1 => (h(false, Some(n)), vec![b(&[1]), s("x")]),
                2 => (h(false, Some(n)), vec![]),
                3 => (h(true, None), vec![Val::U64(n), Val::U32(n as u32), Val::U16(n as u16), Val::U8(n as u8)]),
                4 => (h(true, None), vec![Val::I64(n as i64), Val::I32(n as i32), Val::I16(n as i16), Val::I8(n as i8)]),
                5 => (h(true, None), vec![Val::U128(big * big), Val::I128(-((big * big / 2) as i128)), Val::I64((n as i64).wrapping_neg())]),
                _ => (
                    h(true, None),
                    vec![Val::F64(n as f64), Val::F64(-(n as f64) / 3.0), Val::F64(1.0 / (n as f64 + 1.0)), Val::F32(n as f32), Val::F64(f64::from_bits(n))],
                ),
            }
        }),
        ("characters", |t| {
            // in blocks: every character of the basic plane in the end, or of the first part of it
            let blocks = t.pick(0x300, 0xd800) / 0x80;
            let k = choose(blocks + 8);
            let base = if k < blocks { k * 0x80 } else { [0xd780, 0xe000, 0xfe00, 0xff80, 0x10000, 0x1f600, 0x10ff80, 0x2000][k - blocks] };
            let chars = (base..base + 0x80).filter_map(|c| char::from_u32(c as u32));
            let h = Header {
                event: Some("e"),
                ns: "/",
                id: None,
                binary: choose(2) == 1,
            };
            let v = match choose(3) {
                0 => vec![s(&chars.collect::<String>()), b(&[1])],
                1 => chars.map(Val::Char).collect(),
                _ => chars.map(|c| Val::Map(vec![(Val::Char(c), b(&[1]))], true, false)).collect(),
            };
            (h, v)
        }),
        ("bytes", |t| {
            // every first byte, alone and with every second one
            let x = choose(256) as u8;
            let h = Header {
                event: Some("e"),
                ns: "/",
                id: None,
                binary: choose(2) == 1,
            };
            let two = |f: fn(Vec<u8>) -> Val| (0..=255u8).step_by(t.pick(5, 1)).map(|y| f(vec![x, y])).collect::<Vec<Val>>();
            let seq = |v: Vec<u8>| Val::Seq(v.into_iter().map(Val::U8).collect(), true);
            let v = match choose(4) {
                0 => vec![b(&[x]), u8s(&[x]), b(&[x, x, x]), Val::Tuple(vec![Val::U8(x)])],
                1 => two(Val::Bytes),
                2 => two(seq),
                _ => vec![Val::Seq(vec![Val::U8(x), s("x")], true), Val::Seq(vec![Val::U8(1), Val::U8(x), Val::Unit], true)],
            };
            (h, v)
        }),
        ("lengths", |t| {
            let h = Header {
                event: Some("e"),
                ns: "/",
                id: None,
                binary: choose(2) == 0,
            };
            (h, lengths(t))
        }),
        ("argument lists", |t| {
            let h = header_few();
            let n = choose(t.pick(5, 6));
            let e = arg_alphabet();
            let mut v = Vec::new();
            for _ in 0..n {
                v.push(pick(&e));
            }
            (h, v)
        }),
    ];
    if tier == Tier::Thorough {
        v.push(("three compounds", |_| {
            let h = Header {
                event: Some("e"),
                ns: "/",
                id: None,
                binary: choose(2) == 0,
            };
            let l = core_leaves();
            let v = compound(choose(COMPOUNDS), pick(&l));
            let v = compound(choose(COMPOUNDS), v);
            (h, vec![compound(choose(COMPOUNDS), v)])
        }));
        v.push(("two compounds, all leaves", |_| {
            let h = header_few();
            let l = leaves();
            let v = compound(choose(COMPOUNDS), pick(&l));
            (h, vec![compound(choose(COMPOUNDS), v)])
        }));
    }
    v
}

/// In the middle of being serialized, it builds another packet.
struct Builds(bool);

thread_local! {
    static INNER: std::cell::RefCell<Result<u32, String>> = const { std::cell::RefCell::new(Ok(0)) };
}

fn inner() -> Result<(), String> {
    let h = Header {
        event: Some("inner"),
        ns: "/inner",
        id: Some(3),
        binary: true,
    };
    let vals = [b(&[9, 9, 9]), s("x"), compound(7, u8s(&[8])), b(&[7])];
    let mut p = h.builder();
    for v in &vals {
        p.serialize_arg(v).map_err(|e| e.to_string())?;
    }
    if p.serialize_arg(&Val::Tuple(vec![b(&[6]), Val::Fail])).is_ok() {
        return Err("a failing argument is accepted".into());
    }
    let m = p.finish();
    let wants: Vec<J> = vals.iter().map(|v| v.wire(true).unwrap()).collect();
    check_built(&m, &h, &wants)?;
    check_roundtrip(&decode_messages(&m)?, &h, &vals)
}

fn run_inner() {
    let r = inner();
    INNER.with(|i| {
        let mut i = i.borrow_mut();
        match (r, &mut *i) {
            (Ok(()), Ok(n)) => *n += 1,
            (Err(e), _) => *i = Err(e),
            _ => {}
        }
    })
}

impl serde::Serialize for Builds {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        use serde::ser::{SerializeSeq, SerializeTuple};
        if self.0 {
            let mut t = s.serialize_tuple(2)?;
            t.serialize_element(&b(&[1]))?;
            run_inner();
            t.serialize_element(&b(&[2]))?;
            t.end()
        } else {
            let mut t = s.serialize_seq(Some(2))?;
            t.serialize_element(&1u8)?;
            run_inner();
            t.serialize_element(&2u8)?;
            t.end()
        }
    }
}

/// Several packets under construction at once, one also inside an argument of another.
fn c01_at_once(depth: usize) -> Result<u64, Viol> {
    let headers = [
        Header { event: Some("a"), ns: "/", id: None, binary: true },
        Header { event: None, ns: "/n", id: Some(12), binary: true },
        Header { event: Some("c"), ns: "/n", id: Some(1), binary: false },
    ];
    let args = [
        b(&[1, 2]),
        Val::Tuple(vec![s("t"), u8s(&[3])]),
        Val::Seq(vec![Val::U8(4), s("x")], true),
        Val::Tuple(vec![b(&[5]), Val::Fail]),
    ];
    let n = choose(depth) + 1;
    // operation: packet, and what is added to it (or it is finished, or abandoned)
    let ops: Vec<(usize, usize)> = (0..n).map(|_| (choose(headers.len()), choose(args.len() + 4))).collect();
    log_line(|| format!("operations {:?}", ops));
    INNER.with(|i| *i.borrow_mut() = Ok(0));
    let r = guard(|| {
        let mut open: Vec<Option<(socket::PacketBuilder, Vec<J>)>> = headers.iter().map(|_| None).collect();
        let mut out = Vec::new();
        let mut inside = 0;
        let finish = |k: usize, o: Option<(socket::PacketBuilder, Vec<J>)>, out: &mut Vec<String>| {
            if let Some((p, w)) = o {
                let m = p.finish();
                check_built(&m, &headers[k], &w).map_err(|e| format!("packet {}: {}; messages {}", k, e, show_ws(&m)))?;
                out.push(show_ws(&m))
            }
            Ok::<(), String>(())
        };
        for (k, op) in &ops {
            step();
            let h = &headers[*k];
            let a = args.len();
            if *op == a {
                finish(*k, open[*k].take(), &mut out)?;
                continue;
            }
            if *op == a + 1 {
                open[*k] = None;
                continue;
            }
            let (p, w) = open[*k].get_or_insert_with(|| (h.builder(), Vec::new()));
            let (r, want) = if *op < a {
                (p.serialize_arg(&args[*op]), args[*op].wire(h.binary).filter(|_| !args[*op].fails()))
            } else {
                let whole = *op == a + 2;
                inside += 1;
                let like = if whole { Val::Tuple(vec![b(&[1]), b(&[2])]) } else { u8s(&[1, 2]) };
                (p.serialize_arg(&Builds(whole)), like.wire(h.binary))
            };
            match (r, want) {
                (Ok(()), Some(j)) => w.push(j),
                (Err(_), None) => {}
                (r, _) => return Err(format!("addition {} to packet {} gives {:?}", op, k, r)),
            }
        }
        for k in 0..headers.len() {
            finish(k, open[k].take(), &mut out)?;
        }
        match INNER.with(|i| i.borrow().clone()) {
            Err(e) => return Err(format!("the packet built inside an argument: {}", e)),
            Ok(n) if n != inside => return Err(format!("{} arguments were serialized {} times", inside, n)),
            _ => {}
        }
        Ok(digest(&out.join("\n")))
    });
    let key = || format!("at once:{:?}", ops).replace(char::is_whitespace, "");
    match r {
        Ok(Ok(d)) => Ok(d),
        Ok(Err(e)) | Err(e) => Err(viol(key(), format!("operations {:?}: {}", ops, e))),
    }
}

/// Bytes, however they are presented.
struct AnyBytes(Vec<u8>);

impl<'de> serde::Deserialize<'de> for AnyBytes {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        struct V;
        impl<'de> serde::de::Visitor<'de> for V {
            type Value = AnyBytes;
            fn expecting(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
                f.write_str("bytes")
            }
            fn visit_bytes<E: serde::de::Error>(self, v: &[u8]) -> Result<AnyBytes, E> {
                run_inner();
                Ok(AnyBytes(v.to_vec()))
            }
            fn visit_seq<A: serde::de::SeqAccess<'de>>(self, mut a: A) -> Result<AnyBytes, A::Error> {
                let mut v = Vec::new();
                while let Some(x) = a.next_element()? {
                    run_inner();
                    v.push(x)
                }
                Ok(AnyBytes(v))
            }
        }
        d.deserialize_bytes(V)
    }
}

/// A packet is built and read amid reading another one.
fn c02_within() -> Result<u64, Viol> {
    step();
    let h = Header {
        event: Some("outer"),
        ns: "/",
        id: None,
        binary: true,
    };
    let n = choose(4);
    let shape = choose(3);
    let vals: Vec<Val> = match shape {
        0 => (0..n).map(|i| b(&[i as u8, 77])).collect(),
        1 => vec![Val::Seq((0..n).map(|i| b(&[i as u8, 77])).collect(), true)],
        _ => vec![Val::Map((0..n).map(|i| (s(&format!("k{}", i)), b(&[i as u8, 77]))).collect(), true, false)],
    };
    INNER.with(|i| *i.borrow_mut() = Ok(0));
    log_line(|| format!("{} byte strings, shape {}", n, shape));
    let r = guard(|| {
        let mut p = h.builder();
        for v in &vals {
            p.serialize_arg(v).map_err(|e| e.to_string())?;
        }
        let p = decode_messages(&p.finish())?;
        let Data::Event { args, .. } = p.data() else { return Err("not an event".to_string()) };
        let e = |e: socket::ArgsError| e.to_string();
        let got: Vec<AnyBytes> = match shape {
            0 => (1..args.len()).map(|i| args.get(i).unwrap().deserialize().map_err(e)).collect::<Result<_, _>>()?,
            1 => args.get(1).unwrap().deserialize().map_err(e)?,
            _ => {
                let m: std::collections::BTreeMap<String, AnyBytes> = args.get(1).unwrap().deserialize().map_err(e)?;
                m.into_values().collect()
            }
        };
        let got: Vec<Vec<u8>> = got.into_iter().map(|b| b.0).collect();
        let want: Vec<Vec<u8>> = (0..n).map(|i| vec![i as u8, 77]).collect();
        if got != want {
            return Err(format!("read {:?}, expected {:?}", got, want));
        }
        INNER.with(|i| i.borrow().clone()).map_err(|e| format!("the packet read inside: {}", e))?;
        Ok((n * 3 + shape) as u64)
    });
    match r {
        Ok(Ok(d)) => Ok(d),
        Ok(Err(e)) | Err(e) => Err(viol(format!("within:{}:{}", n, shape), e)),
    }
}

pub fn c01(tier: Tier) -> Vec<Scenario> {
    let depth = tier.pick(4, 5);
    arguments(tier)
        .into_iter()
        .map(|(name, gen)| {
            scenario(format!("build: {}", name), 0, move || {
                let (h, vals) = gen(tier);
                let wants: Vec<Option<J>> = vals.iter().map(|v| v.wire(h.binary)).collect();
                one_build(&h, &vals, &wants)
            })
        })
        .chain(std::iter::once(scenario(format!("up to {} additions to packets under construction at once", depth), 0, move || c01_at_once(depth))))
        .chain(std::iter::once(scenario("connect and disconnect", 0, || {
            step();
            let ns = pick(&namespaces());
            let con = choose(2) == 0;
            let m = if con { socket::serialize_connect(ns) } else { socket::serialize_disconnect(ns) };
            // These come with the engine message marker in front.
            let t = match &m {
                EMsg::Text(t) => t.to_string(),
                EMsg::Binary(_) => return Err(viol("connect-binary", "binary connect packet")),
            };
            log_line(|| format!("{:?}", t));
            let want = if con { Kind::Connect } else { Kind::Disconnect };
            match parse_packet(t.strip_prefix('4').unwrap_or("")) {
                Parsed::Ok(p) if p.kind == want && p.ns == ns => Ok(digest(&t)),
                o => Err(viol(format!("connect:{}", ns), format!("{:?} for {:?} is {:?}", t, ns, o))),
            }
        })))
        .chain(crate::client_a::c01_client(tier))
        .collect()
}

// ---------------------------------------------------------------- C02

/// Type and value under which a value reads back, if it has an unambiguous one.
pub fn typed(v: &Val) -> Option<(Ty, DynVal)> {
    use Val::*;
    let bx = |t: Ty| Box::new(t);
    Option::Some(match v {
        Bool(x) => (Ty::Bool, DynVal::Bool(*x)),
        I8(x) => (Ty::I8, DynVal::I(*x as i128)),
        I16(x) => (Ty::I16, DynVal::I(*x as i128)),
        I32(x) => (Ty::I64, DynVal::I(*x as i128)),
        I64(x) => (Ty::I64, DynVal::I(*x as i128)),
        I128(x) => (Ty::I128, DynVal::I(*x)),
        U8(x) => (Ty::U8, DynVal::U(*x as u128)),
        U16(x) => (Ty::U16, DynVal::U(*x as u128)),
        U32(x) => (Ty::U32, DynVal::U(*x as u128)),
        U64(x) => (Ty::U64, DynVal::U(*x as u128)),
        U128(x) => (Ty::U128, DynVal::U(*x)),
        // serde_json reads some numbers back off by one unit in the last place
        F64(x) if x.is_finite() => {
            let y: f64 = serde_json::from_str(&serde_json::to_string(x).ok()?).ok()?;
            (Ty::F64, DynVal::F(y.to_bits()))
        }
        Char(c) => (Ty::Char, DynVal::Char(*c)),
        Str(t) | Disp(t) => (Ty::Str, DynVal::Str(t.clone())),
        Bytes(d) => (Ty::Bytes, DynVal::Bytes(d.clone())),
        None => (Ty::Opt(bx(Ty::U8)), DynVal::None),
        Unit => (Ty::Unit, DynVal::Unit),
        UnitStruct => (Ty::UnitStruct, DynVal::Unit),
        Some(x) => {
            let (t, d) = typed(x)?;
            // what is null inside an option reads back as none
            let mut inner = &t;
            while let Ty::Newtype(n) = inner {
                inner = n;
            }
            if matches!(inner, Ty::Opt(_) | Ty::Unit | Ty::UnitStruct) {
                return Option::None;
            }
            (Ty::Opt(bx(t)), DynVal::Some(Box::new(d)))
        }
        Newtype(x) => {
            let (t, d) = typed(x)?;
            (Ty::Newtype(bx(t)), DynVal::Newtype(Box::new(d)))
        }
        Seq(x, _) | Tuple(x) | TupleStruct(x) => {
            let p: Vec<(Ty, DynVal)> = x.iter().map(typed).collect::<Option<_>>()?;
            if let [(Ty::U8, _), ..] = &p[..] {
                if p.iter().all(|q| q.0 == Ty::U8) {
                    return Option::Some((
                        Ty::Seq(bx(Ty::U8)),
                        DynVal::Seq(p.into_iter().map(|q| q.1).collect()),
                    ));
                }
            }
            (
                Ty::Tuple(p.iter().map(|q| q.0.clone()).collect()),
                DynVal::Seq(p.into_iter().map(|q| q.1).collect()),
            )
        }
        Map(e, _, _) => {
            let mut ty = Option::None;
            let mut out = Vec::new();
            for (k, x) in e {
                let (kt, kd) = typed(k)?;
                let (xt, xd) = typed(x)?;
                let both = (kt, xt);
                match &ty {
                    Option::None => ty = Option::Some(both),
                    Option::Some(t) if *t == both => {}
                    _ => return Option::None,
                }
                out.push((kd, xd));
            }
            let (kt, xt) = ty.unwrap_or((Ty::Str, Ty::U8));
            (Ty::Map(bx(kt), bx(xt)), DynVal::Map(out))
        }
        _ => return Option::None,
    })
}

/// Feed messages through an engine session and the packet decoder.
pub fn decode_messages(m: &[Ws]) -> Result<Packet, String> {
    let mut d = Decoder::new();
    d.decode(Ws::Text("0{\"sid\":\"s\",\"pingInterval\":1,\"pingTimeout\":2}".into()))
        .map_err(|e| format!("open: {}", e))?;
    let mut e = Vec::new();
    for x in m {
        match d.decode(x.clone()) {
            Ok(EPacket::Message(m)) => e.push(m),
            o => return Err(format!("engine decodes {:?}", o)),
        }
    }
    let mut it = e.into_iter();
    match socket::deserialize(it.next().ok_or("nothing")?).map_err(|e| format!("decoding fails: {}", e))? {
        DeserializeResult::Packet(p) => {
            if it.next().is_some() {
                return Err("packet complete before its attachments".into());
            }
            Ok(p)
        }
        DeserializeResult::DataNeeded(p) => {
            if crate::vals::n64(p.attachments()) != it.len() as u64 {
                return Err(format!("decoder wants {} attachments, {} sent", crate::vals::n64(p.attachments()), it.len()));
            }
            socket::deserialize_partial(p, it).map_err(|e| format!("completing fails: {}", e))
        }
    }
}

fn check_roundtrip(p: &Packet, h: &Header, vals: &[Val]) -> Result<(), String> {
    if p.namespace() != h.ns {
        return Err(format!("namespace {:?}", p.namespace()));
    }
    let args = match (p.data(), h.event) {
        (Data::Event { id, args }, Some(_)) => {
            if id.map(crate::vals::n64) != h.id {
                return Err(format!("id {:?}", id));
            }
            args
        }
        (Data::Ack { id, args }, None) => {
            if Some(crate::vals::n64(id)) != h.id {
                return Err(format!("id {:?}", id));
            }
            args
        }
        (d, _) => return Err(format!("kind {}", short(&format!("{:?}", d)))),
    };
    let off = h.event.is_some() as usize;
    if args.len() != vals.len() + off || args.is_empty() != (vals.len() + off == 0) {
        return Err(format!("{} arguments", args.len()));
    }
    if args.iter().count() != args.len() || args.get(args.len()).is_some() {
        return Err("iteration disagrees with the length".into());
    }
    if let Some(e) = h.event {
        let a = args.get(0).unwrap();
        match a.deserialize::<String>() {
            Ok(x) if x == e => {}
            o => return Err(format!("event name {:?}", o)),
        }
    }
    for (i, v) in vals.iter().enumerate() {
        let a = args.get(i + off).unwrap();
        let plain = to_text(&v.wire(h.binary).unwrap());
        let want: serde_json::Value = serde_json::from_str(&plain).map_err(|e| e.to_string())?;
        match a.to_json_value() {
            Ok(x) if x == want => {}
            o => {
                return Err(format!(
                    "argument {} reads as {}, not {}",
                    i,
                    short(&format!("{:?}", o)),
                    short(&plain)
                ))
            }
        }
        if args.iter().nth(i + off).map(|a| a.to_json_value().ok()) != Some(Some(want)) {
            return Err(format!("iteration yields another argument {}", i));
        }
        if let Some((ty, d)) = typed(v) {
            set_type(ty.clone());
            let d = d.norm();
            match a.deserialize::<Dyn>() {
                Ok(x) if x.0.clone().norm() == d => {}
                o => {
                    return Err(format!(
                        "argument {} read as {:?} is {}, not {}",
                        i,
                        ty,
                        short(&format!("{:?}", o)),
                        short(&format!("{:?}", d))
                    ))
                }
            }
        }
    }
    Ok(())
}

pub fn c02(tier: Tier) -> Vec<Scenario> {
    arguments(tier)
        .into_iter()
        .map(|(name, gen)| {
            scenario(format!("round trip: {}", name), 0, move || {
                let (h, vals) = gen(tier);
                if vals.iter().any(|v| v.wire(h.binary).is_none()) {
                    return Ok(0);
                }
                step();
                let desc = || format!("{:?} {}", h, short(&format!("{:?}", vals)));
                log_line(|| format!("round trip {}", desc()));
                let key = || format!("roundtrip:{}", short(&format!("{:?}{:?}", h, vals)).replace(char::is_whitespace, ""));
                let r = guard(|| {
                    let mut b = h.builder();
                    for v in &vals {
                        b.serialize_arg(v).map_err(|e| format!("refused: {}", e))?;
                    }
                    let m = b.finish();
                    log_line(|| format!("messages {}", show_ws(&m)));
                    let p = decode_messages(&m)?;
                    check_roundtrip(&p, &h, &vals)?;
                    Ok::<u64, String>(digest(&show_ws(&m)))
                });
                match r {
                    Ok(Ok(d)) => Ok(d),
                    Ok(Err(e)) => Err(viol(key(), format!("{}: {}", desc(), e))),
                    Err(p) => Err(viol(key(), format!("{}: {}", desc(), p))),
                }
            })
        })
        .chain(std::iter::once(scenario("packets within each other", 0, c02_within)))
        .chain(std::iter::once(scenario("round trip: connect and disconnect", 0, || {
            step();
            let ns = pick(&namespaces());
            let con = choose(2) == 0;
            let m = if con { socket::serialize_connect(ns) } else { socket::serialize_disconnect(ns) };
            let t = match &m {
                EMsg::Text(t) => t.to_string(),
                EMsg::Binary(_) => return Err(viol("connect-binary", "binary connect packet")),
            };
            let bad = |e: String| Err(viol(format!("connect:{}", ns), format!("{:?} for {:?}: {}", t, ns, e)));
            match decode_messages(&[Ws::Text(t.clone())]) {
                Ok(p) => {
                    let k = match p.data() {
                        Data::Connect => con,
                        Data::Disconnect => !con,
                        _ => false,
                    };
                    if !k || p.namespace() != ns {
                        return bad(format!("{}", p));
                    }
                    Ok(digest(&t))
                }
                Err(e) => bad(e),
            }
        })))
        .collect()
}

// ---------------------------------------------------------------- C03

fn c03_ops() -> Vec<(Val, Option<u32>)> {
    // value, fuse: None = succeeds or fails by itself
    let f = || Val::Fail;
    let fa = |v: Vec<Val>| Val::FailAfter(v);
    vec![
        (Val::U8(4), None),
        (b(&[1, 2]), None),
        (u8s(&[3]), None),
        (compound(7, u8s(&[9])), None),
        (f(), None),
        (fa(vec![b(&[1]), Val::U8(1)]), None),
        (fa(vec![Val::U8(1), Val::U8(2)]), None),
        (Val::Seq(vec![Val::U8(1), f()], true), None),
        (Val::Tuple(vec![b(&[9]), u8s(&[8]), f()]), None),
        (Val::Struct(vec![("a", Some(b(&[5]))), ("b", Some(f()))]), None),
        (Val::Map(vec![(s("k"), u8s(&[7])), (b(&[6]), Val::Unit)], true, false), None),
        (Val::Map(vec![(u8s(&[6]), Val::Unit)], true, true), None),
    ]
}

fn c03_values() -> Vec<Val> {
    let mut v = Vec::new();
    for k in 0..COMPOUNDS {
        v.push(compound(k, Val::Tuple(vec![b(&[1]), u8s(&[2, 3]), s("x")])));
        v.push(compound(k, compound(7, u8s(&[9]))));
    }
    v.extend(leaves());
    v
}

fn c03_run(h: &Header, ops: &[(Val, Option<u32>)]) -> Result<u64, Viol> {
    let desc = || format!("{:?} {}", h, short(&format!("{:?}", ops)));
    log_line(|| format!("history {}", desc()));
    let key = || format!("history:{}", short(&format!("{:?}{:?}", h, ops)).replace(char::is_whitespace, ""));
    let r = guard(|| {
        let mut b = h.builder();
        let mut good = Vec::new();
        for (v, fuse) in ops {
            step();
            let fails = v.fails() || v.wire(h.binary).is_none();
            set_fuse(*fuse);
            let r = b.serialize_arg(v);
            let blown = fuse.is_some() && fuse_blown();
            set_fuse(None);
            if fails && r.is_ok() {
                return Err(format!("{:?} is accepted", v));
            }
            if !fails && !blown && r.is_err() {
                return Err(format!("{:?} is refused", v));
            }
            if r.is_ok() {
                if blown {
                    return Err(format!("{:?} is accepted although its serialization failed", v));
                }
                good.push(v.clone());
            }
        }
        let m = b.finish();
        let mut c = h.builder();
        for v in &good {
            c.serialize_arg(v).map_err(|e| e.to_string())?;
        }
        let w = c.finish();
        if m != w {
            return Err(format!("messages {} instead of {}", show_ws(&m), show_ws(&w)));
        }
        let wants: Vec<J> = good.iter().map(|v| v.wire(h.binary).unwrap()).collect();
        check_built(&m, h, &wants)?;
        Ok(digest(&show_ws(&m)))
    });
    set_fuse(None);
    match r {
        Ok(Ok(d)) => Ok(d),
        Ok(Err(e)) => Err(viol(key(), format!("{}: {}", desc(), e))),
        Err(p) => Err(viol(key(), format!("{}: {}", desc(), p))),
    }
}

fn c03_headers() -> Header {
    let k = choose(6);
    Header {
        event: if k % 3 < 2 { Some("ev") } else { None },
        ns: if k % 3 == 0 { "/" } else { "/n" },
        id: if k % 3 == 0 { None } else { Some(12) },
        binary: k >= 3,
    }
}

pub fn c03(tier: Tier) -> Vec<Scenario> {
    let depth = tier.pick(5, 6);
    vec![
        scenario("histories of additions", 0, move || {
            let h = c03_headers();
            let ops = c03_ops();
            let n = choose(depth) + 1;
            let mut v = Vec::new();
            for _ in 0..n {
                v.push(pick(&ops));
            }
            c03_run(&h, &v)
        }),
        scenario("a failure at every point of every value", 0, move || {
            let h = c03_headers();
            let vals = c03_values();
            let v = pick(&vals);
            if v.wire(h.binary).is_none() {
                return Ok(0);
            }
            let at = choose(12) as u32;
            let pos = choose(3);
            let ok = (b(&[42, 4]), None);
            let mut ops = Vec::new();
            if pos > 0 {
                ops.push(ok.clone());
            }
            ops.push((v, Some(at)));
            if pos == 2 {
                ops.push(ok);
            }
            c03_run(&h, &ops)
        }),
        scenario("a failure after much output", 0, move || {
            let h = c03_headers();
            let mut sizes = vec![1usize, 63, 127, 128, 255, 256, 257, 1_000, 1_024, 4_095, 4_096, 4_097, 65_535, 65_536, 65_537];
            sizes.extend(tier.pick(&[][..], &[8_192, 16_384, 100_000, 1_000_000]));
            let n = pick(&sizes);
            let big = match choose(7) {
                0 => s(&"x".repeat(n)),
                1 => s(&"\"".repeat(n)),
                2 => b(&vec![4; n]),
                3 => Val::Seq(vec![u8s(&[1]); n.min(5_000)], true),
                4 => Val::Seq(vec![b(&[1]); n.min(5_000)], false),
                5 => Val::Seq(vec![Val::U64(u64::MAX); n.min(5_000)], true),
                _ => Val::Map((0..n.min(5_000)).map(|i| (Val::U64(i as u64), b(&[2]))).collect(), true, true),
            };
            let bad = match choose(4) {
                0 => Val::Tuple(vec![big, Val::Fail]),
                1 => Val::Seq(vec![big, Val::Fail], false),
                2 => Val::Struct(vec![("a", Some(big)), ("b", Some(Val::Fail))]),
                _ => Val::Map(vec![(s("k"), big), (Val::Fail, Val::Unit)], false, true),
            };
            let ok = (b(&[42, 4]), None);
            let ops = match choose(4) {
                0 => vec![(bad, None)],
                1 => vec![ok.clone(), (bad, None)],
                2 => vec![(bad, None), ok.clone()],
                _ => vec![ok.clone(), (bad, None), ok],
            };
            c03_run(&h, &ops)
        }),
        scenario("many failures", 0, move || {
            let h = c03_headers();
            let n = pick(tier.pick(&[10usize, 255, 256, 257, 2_000][..], &[10, 100, 255, 256, 257, 2_000, 70_000]));
            let bad = pick(&[
                Val::Fail,
                Val::Tuple(vec![b(&[9]), u8s(&[8]), Val::Fail]),
                Val::Struct(vec![("a", Some(s("long enough to matter"))), ("b", Some(Val::Fail))]),
            ]);
            let every = pick(&[1usize, 2, 3, 100]);
            let ops: Vec<(Val, Option<u32>)> =
                (0..n).map(|i| if (i + 1) % every == 0 { (bad.clone(), None) } else { (b(&[i as u8]), None) }).collect();
            c03_run(&h, &ops)
        }),
        scenario("after many arguments", 0, move || {
            // the failing value comes after n arguments or n attachments
            let h = c03_headers();
            let n = pick(&[9usize, 10, 11, 99, 100, 101, 255, 256, 257, 999, 1_000, 1_001]);
            let good = pick(&[Val::U8(7), b(&[7]), s("seven"), Val::Seq(vec![u8s(&[7, 7]), b(&[])], true)]);
            let bad = pick(&[Val::Fail, Val::Tuple(vec![b(&[9]), u8s(&[8]), s("x"), Val::Fail]), Val::Seq(vec![Val::U8(1), Val::Fail], true)]);
            let mut ops = vec![(good.clone(), None); n];
            ops.push((bad.clone(), None));
            for _ in 0..choose(2) {
                ops.push((good.clone(), None));
                ops.push((bad.clone(), None));
            }
            c03_run(&h, &ops)
        }),
    ]
}

// ---------------------------------------------------------------- C04

/// What decoding a text payload (and completing it) gives.
enum Dec {
    Packet(Packet),
    /// more attachments announced than are tried out
    Needs(u64),
    Err(String),
}

fn decode_text(t: &str) -> Result<Dec, String> {
    guard(|| match socket::deserialize(EMsg::Text(OwnedSubslice::from(t.to_string()))) {
        Err(e) => Dec::Err({
            // errors must be printable too
            let s = e.to_string();
            let _ = format!("{:?}", e);
            s
        }),
        Ok(DeserializeResult::Packet(p)) => Dec::Packet(p),
        Ok(DeserializeResult::DataNeeded(p)) => {
            let n = crate::vals::n64(p.attachments());
            if n > 64 {
                return Dec::Needs(n);
            }
            let a: Vec<EMsg> = (0..n).map(|i| EMsg::Binary(vec![i as u8, 200].into())).collect();
            match socket::deserialize_partial(p, a) {
                Ok(p) => Dec::Packet(p),
                Err(e) => Dec::Err(e.to_string()),
            }
        }
    })
}

pub fn check_decode(t: &str) -> Result<u64, Viol> {
    step();
    let key = || format!("decode:{}", short(t).replace(char::is_whitespace, "_"));
    let bad = |m: String| Err(viol(key(), format!("payload {:?}: {}", short(t), m)));
    let want = parse_packet(t);
    let got = match decode_text(t) {
        Ok(g) => g,
        Err(p) => return bad(p),
    };
    let w = match want {
        Parsed::Open => return Ok(2),
        Parsed::Err | Parsed::Late(_) => {
            return match got {
                Dec::Err(_) => Ok(3),
                Dec::Needs(_) => Ok(3), // never completed here
                Dec::Packet(p) => bad(format!("outside the grammar, but decoded as {:?}", p)),
            }
        }
        Parsed::Ok(w) => w,
    };
    let p = match got {
        Dec::Err(e) => return bad(format!("is a packet ({:?}), but rejected: {}", w, e)),
        Dec::Needs(n) => {
            return if n == w.attachments {
                Ok(4)
            } else {
                bad(format!("{} attachments wanted", n))
            }
        }
        Dec::Packet(p) => p,
    };
    if w.attachments > 64 {
        return bad("complete although attachments are missing".into());
    }
    if p.namespace() != w.ns {
        return bad(format!("namespace {:?} instead of {:?}", p.namespace(), w.ns));
    }
    let (kind, id, args) = match p.data() {
        Data::Connect => (Kind::Connect, None, None),
        Data::Disconnect => (Kind::Disconnect, None, None),
        Data::Event { id, args } => (Kind::Event, id.map(crate::vals::n64), Some(args)),
        Data::Ack { id, args } => (Kind::Ack, Some(crate::vals::n64(id)), Some(args)),
    };
    if kind != w.kind || id != w.id {
        return bad(format!("decoded as {:?} with id {:?} instead of {:?}", kind, id, w));
    }
    let n = args.as_ref().map_or(0, |a| a.len());
    if n != w.args.len() {
        return bad(format!("{} arguments instead of {:?}", n, w.args));
    }
    if let Some(a) = args {
        let att: Vec<Vec<u8>> = (0..w.attachments).map(|i| vec![i as u8, 200]).collect();
        for (i, want) in w.args.iter().enumerate() {
            let x = a.get(i).unwrap();
            if w.attachments == 0 {
                match guard(|| x.deserialize::<&serde_json::value::RawValue>().map(|r| r.get().to_string())) {
                    Ok(Ok(r)) if r == *want => {}
                    o => return bad(format!("argument {} is {:?} instead of {:?}", i, o, want)),
                }
            }
            // Values whose numbers or nesting exceed what can be represented may be errors.
            if let Ok(plain) = serde_json::from_str::<serde_json::Value>(want) {
                let j = from_value(&plain);
                let want = if w.attachments > 0 { resolve_any(&j, &att) } else { Some(j) };
                match (guard(|| x.to_json_value()), want) {
                    (Err(p), _) => return bad(p),
                    (Ok(Ok(v)), Some(j)) if from_value(&v) == expand(&j) => {}
                    (Ok(Err(_)), None) => {}
                    (Ok(o), w) => return bad(format!("argument {} reads as {:?} instead of {:?}", i, o, w)),
                }
            }
        }
    }
    Ok(digest(&format!("{:?}", w)))
}

/// Placeholders in objects whose keys serde_json has sorted.
fn resolve_any(j: &J, att: &[Vec<u8>]) -> Option<J> {
    resolve(j, att)
}

fn expand(j: &J) -> J {
    match j {
        J::Bytes(b) => J::Arr(b.iter().map(|x| J::Num(x.to_string())).collect()),
        J::Arr(v) => J::Arr(v.iter().map(expand).collect()),
        J::Obj(o) => J::Obj(o.iter().map(|(k, v)| (k.clone(), expand(v))).collect()),
        x => x.clone(),
    }
}

const TOK: &[&str] = &[
    "2", "3", "0", "5", "1", "6", "-", "/", ",", "[", "]", "\"a\"", "4", "7", "x", " ", "\n", "é",
];

fn all_strings(prefix: String, left: usize, toks: &[&str], f: &mut dyn FnMut(&str) -> Result<(), Viol>) -> Result<(), Viol> {
    f(&prefix)?;
    if left == 0 {
        return Ok(());
    }
    for t in toks {
        all_strings(format!("{}{}", prefix, t), left - 1, toks, f)?;
    }
    Ok(())
}

pub fn json_args() -> Vec<String> {
    let mut v: Vec<String> = [
        "",
        "[]",
        "[1]",
        "[\"a\"]",
        "[\"a\",1]",
        "[\"a\",[1,2],{\"k\":\"v\"},null,true]",
        "[\"a,]\",\"\\\"],[\"]",
        "[\"\\u0041\\n\\\\\"]",
        "[\"é漢𝄞\"]",
        "[ \"a\" , [ 1 , 2 ] ]",
        "[\n\"a\",\r\n\t{\"k\" :\n1}]",
        "[\"a\",1.50,-0,1e3,123456789012345678901234567890]",
        "[\"a\",1e999]",
        "[\"a\",\"\\ud800\"]",
        "[\"a\",\"\\ud834\\udd1e\"]",
        "[{\"_placeholder\":true,\"num\":0}]",
        "[\"a\",{\"_placeholder\":true,\"num\":0},{\"k\":[{\"_placeholder\":true,\"num\":1}]}]",
        "[\"a\",{\"_placeholder\":true,\"num\":9}]",
        "[\"a\",{\"a\":1,\"a\":2}]",
        "[\"/n,\",\"2[1]\"]",
        // malformed
        "[",
        "]",
        "[1",
        "1]",
        "[1]]",
        "[[1]",
        "[1,]",
        "[,1]",
        "[1 2]",
        "[01]",
        "[+1]",
        "[.5]",
        "[1.]",
        "[NaN]",
        "[nul]",
        "['a']",
        "[\"a]",
        "[\"\\x\"]",
        "[\"\\u12\"]",
        "[\"\t\"]",
        "[\"\n\"]",
        "[\"a\"]\n",
        "[\"a\"] ",
        " [\"a\"]",
        "[\"a\"]x",
        "{}",
        "{\"a\":1}",
        "\"a\"",
        "[{\"a\"}]",
        "[{a:1}]",
        "[{\"a\":1,}]",
        "[]]",
        "[][]",
        "[1][2]",
        "[\u{a0}1]",
        "[1]\u{0}",
        "[\u{feff}1]",
    ]
    .iter()
    .map(|x| x.to_string())
    .collect();
    v.push(format!("[{}1{}]", "[".repeat(100), "]".repeat(100)));
    v.push(format!("[\"a\",{}1{}]", "{\"k\":".repeat(90), "}".repeat(90)));
    v.push(format!("[{}]", (0..300).map(|i| i.to_string()).collect::<Vec<_>>().join(",")));
    v
}

pub fn numbers() -> Vec<&'static str> {
    vec![
        "0",
        "1",
        "2",
        "9",
        "10",
        "12",
        "00",
        "01",
        "007",
        "4294967296",
        "9223372036854775808",
        "18446744073709551615",
        "18446744073709551616",
        "99999999999999999999",
        "184467440737095516150",
        "100000000000000000000000000000000000000000000",
        "-1",
        "+1",
        " 1",
        "1 ",
        "٣",
        "1a",
        "0x1",
        "1.0",
    ]
}

pub fn ns_tokens() -> Vec<&'static str> {
    vec![
        "",
        "/n,",
        "/,",
        "/n",
        "n,",
        "/a/b,",
        "/a?x=1,",
        "/é漢,",
        "/1,",
        "/12-3,",
        "/[,",
        "/\"x\",",
        "/a b,",
        "/n,/m,",
        "/n,x,",
        "//,",
        "/n ,",
        "/-,",
        ",",
        "/n,,",
        "/\u{2028},",
    ]
}

pub fn c04(tier: Tier) -> Vec<Scenario> {
    let toklen = tier.pick(6, 7);
    let mut v = vec![
        scenario("every string over the grammar's tokens", 0, move || {
            // the first tokens are choices; the rest is enumerated inside
            let a = TOK[choose(TOK.len())];
            let c = choose(TOK.len() + 1);
            if c == 0 {
                return check_decode(a);
            }
            let p = format!("{}{}", a, TOK[c - 1]);
            log_line(|| format!("all strings starting with {:?}", p));
            all_strings(p, toklen - 2, TOK, &mut |s| check_decode(s).map(|_| ()))?;
            Ok(0)
        }),
        scenario("boundary values of every field", 0, move || {
            let typ = pick(&["2", "3", "5", "6", "0", "1", "4", "7", "8", "9", "", "x", "é", " 2"]);
            let nums = numbers();
            let c = choose(nums.len() + 1);
            let count = if c == 0 { String::new() } else { format!("{}-", nums[c - 1]) };
            let ns = pick(&ns_tokens());
            let small = c > 1;
            log_line(|| format!("type {:?} count {:?} namespace {:?}, all ids and arguments", typ, count, ns));
            let args = json_args();
            for id in std::iter::once("").chain(nums.iter().copied()) {
                for a in args.iter().take(if small || id.len() > 1 { 8 } else { args.len() }) {
                    check_decode(&format!("{}{}{}{}{}", typ, count, ns, id, a))?;
                }
            }
            Ok(0)
        }),
        scenario("names and numbers of every form", 0, move || {
            let kind = pick(&["2", "3", "5", "6", "0", "1"]);
            let what = choose(4);
            step();
            log_line(|| format!("kind {} field {}", kind, what));
            let p = "{\"_placeholder\":true,\"num\":0}";
            let count = if kind == "5" || kind == "6" { "1-" } else { "" };
            let tail = |first: &str| match kind {
                "0" | "1" => String::new(),
                "5" | "6" => format!("[{},{}]", first, p),
                _ => format!("[{}]", first),
            };
            if what == 0 {
                for w in words() {
                    check_decode(&format!("{}{}/{},{}{}", kind, count, w, if kind == "3" || kind == "6" { "1" } else { "" }, tail("\"e\"")))?;
                }
            } else if what == 1 {
                for w in words() {
                    check_decode(&format!("{}{}1{}", kind, count, tail(&crate::reference::quote(w))))?;
                    check_decode(&format!("{}{}/n,{}", kind, count, tail(&format!("\"e\",{}", crate::reference::quote(w)))))?;
                    check_decode(&format!("{}{}/n,{}", kind, count, tail(w)))?;
                    check_decode(&format!("{}{}{}{}", kind, count, w, tail("\"e\"")))?;
                    check_decode(&format!("{}{}", kind, w))?;
                }
            } else {
                for n in edges().into_iter().map(|n| n as u128).chain([1 << 64, (1 << 64) + 1, 20_000_000_000_000_000_000, 10u128.pow(38)]) {
                    for zero in ["", "0"] {
                        if what == 2 {
                            check_decode(&format!("{}{}{}{}{}", kind, count, zero, n, tail("\"e\"")))?;
                            check_decode(&format!("{}{}/n,{}{}{}", kind, count, zero, n, tail("\"e\"")))?;
                        } else {
                            check_decode(&format!("{}{}{}-1{}", kind, zero, n, tail("\"e\"")))?;
                            check_decode(&format!("{}{}{}-/n,1{}", kind, zero, n, tail("\"e\"")))?;
                        }
                    }
                }
            }
            Ok(0)
        }),
        scenario("field boundaries with separators misplaced", 0, move || {
            let parts = ["2", "51-", "/n,", "7", "[\"a\",{\"_placeholder\":true,\"num\":0}]", ",", "-", "/", "61-", "0"];
            let n = choose(4) + 1;
            let mut t = String::new();
            for _ in 0..n {
                t.push_str(parts[choose(parts.len())]);
            }
            log_line(|| format!("{:?}", t));
            check_decode(&t)
        }),
        scenario("JSON fragments", 0, move || {
            let frag = [
                "[", "]", "{", "}", ",", ":", "\"", "\\", "\"a\"", "1", "-", ".", "e", "0", "null", "t", " ", "\n", "\u{1}",
            ];
            let head = ["2", "30", "2/n,5", "50-"];
            let h = head[choose(head.len())];
            let a = frag[choose(frag.len())];
            log_line(|| format!("{:?} + array of fragments starting with {:?}", h, a));
            let n = tier.pick(4, 5);
            all_strings(a.to_string(), n, &frag, &mut |s| check_decode(&format!("{}[{}]", h, s)).map(|_| ()))?;
            Ok(0)
        }),
        scenario("attachments of the wrong number or kind", 0, || {
            let n = choose(4);
            let kind = choose(2);
            let t = format!("{}{}-{}[\"a\"]", if kind == 0 { "5" } else { "6" }, n, if kind == 0 { "" } else { "1" });
            let mut a = Vec::new();
            let k = choose(5);
            let mut all_bin = true;
            for i in 0..k {
                if choose(2) == 0 {
                    a.push(EMsg::Binary(vec![i as u8].into()))
                } else {
                    all_bin = false;
                    a.push(EMsg::Text("2[\"x\"]".to_string().into()))
                }
            }
            step();
            log_line(|| format!("{:?} with {:?}", t, a));
            let key = format!("attach:{}:{}", t, k);
            let r = guard(|| match socket::deserialize(EMsg::Text(t.clone().into())) {
                Ok(DeserializeResult::Packet(_)) => None,
                Ok(DeserializeResult::DataNeeded(p)) => Some(socket::deserialize_partial(p, a.clone()).is_ok()),
                Err(_) => Some(false),
            });
            match r {
                Err(p) => Err(viol(key, p)),
                Ok(None) if n == 0 => Ok(1),
                Ok(None) => Err(viol(key, format!("{} complete without attachments", t))),
                Ok(Some(ok)) if ok == (n > 0 && k == n && all_bin) => Ok(2 + ok as u64),
                Ok(Some(ok)) => Err(viol(key, format!("{:?} with {:?}: accepted {}", t, a, ok))),
            }
        }),
        scenario("binary payloads outside a packet", 0, || {
            let d = pick(&[vec![], vec![4u8], b"2[\"a\"]".to_vec(), vec![255, 0]]);
            step();
            match guard(|| socket::deserialize(EMsg::Binary(d.clone().into())).is_err()) {
                Ok(true) => Ok(0),
                o => Err(viol("binary", format!("binary payload {:?}: {:?}", d, o))),
            }
        }),
        scenario("payload is a view into a longer message", 0, || {
            // the engine layer hands over a view that starts after the marker
            let full = pick(&[
                "4251-/n,7[\"a\",{\"_placeholder\":true,\"num\":0},\"é\"]",
                "é2/n,7[\"a\",{\"k\":1}]tail",
                "42[\"a\"]",
                "4451-[\"é\",{\"_placeholder\":true,\"num\":0}]]]",
            ]);
            let idx: Vec<usize> = full.char_indices().map(|x| x.0).chain(std::iter::once(full.len())).collect();
            let i = choose(idx.len());
            let j = i + choose(idx.len() - i);
            let (i, j) = (idx[i], idx[j]);
            let t = &full[i..j];
            log_line(|| format!("{:?}[{}..{}] = {:?}", full, i, j, t));
            let view = |x: &str| match socket::deserialize(EMsg::Text(OwnedSubslice::new(x.to_string(), i..j))) {
                Ok(DeserializeResult::Packet(p)) => format!("{} {}", p.namespace(), p),
                Ok(DeserializeResult::DataNeeded(p)) => {
                    let n = crate::vals::n64(p.attachments());
                    if n > 9 {
                        return format!("needs {}", n);
                    }
                    match socket::deserialize_partial(p, (0..n).map(|k| EMsg::Binary(vec![9, k as u8].into()))) {
                        Ok(p) => format!("{} {}", p.namespace(), p),
                        Err(_) => "error".into(),
                    }
                }
                Err(_) => "error".into(),
            };
            let whole = match socket::deserialize(EMsg::Text(t.to_string().into())) {
                Ok(DeserializeResult::Packet(p)) => format!("{} {}", p.namespace(), p),
                Ok(DeserializeResult::DataNeeded(p)) => {
                    let n = crate::vals::n64(p.attachments());
                    if n > 9 {
                        format!("needs {}", n)
                    } else {
                        match socket::deserialize_partial(p, (0..n).map(|k| EMsg::Binary(vec![9, k as u8].into()))) {
                            Ok(p) => format!("{} {}", p.namespace(), p),
                            Err(_) => "error".into(),
                        }
                    }
                }
                Err(_) => "error".into(),
            };
            match guard(|| view(full)) {
                Ok(v) if v == whole => check_decode(t),
                o => Err(viol(format!("view:{}:{}", i, j), format!("view {:?} decodes as {:?}, the same text alone as {:?}", t, o, whole))),
            }
        }),
    ];
    if tier == Tier::Thorough {
        v.push(scenario("long strings over few tokens", 0, || {
            const T: &[&str] = &["5", "1", "-", "/", ",", "[", "]", "\"a\"", "0"];
            let a = T[choose(T.len())];
            let c = T[choose(T.len())];
            let d = T[choose(T.len())];
            all_strings(format!("{}{}{}", a, c, d), 5, T, &mut |s| check_decode(s).map(|_| ()))?;
            Ok(0)
        }));
    }
    v
}

// ---------------------------------------------------------------- C05

pub fn engine_alphabet() -> Vec<Ws> {
    let t = |s: &str| Ws::Text(s.to_string());
    vec![
        t("0{\"sid\":\"abc\",\"upgrades\":[],\"pingInterval\":25000,\"pingTimeout\":5000}"),
        t("1"),
        t("2"),
        t("3"),
        t("4"),
        t("42[\"é\"]"),
        t("4𝄞4"),
        Ws::Binary(vec![4]),
        Ws::Binary(vec![4, 4, 255, 0]),
        t("0"),
        t("0{}"),
        t("0{\"sid\":\"abc\",\"pingInterval\":25000}"),
        t("0{\"sid\":\"abc\",\"pingInterval\":-1,\"pingTimeout\":5000}"),
        t("0{\"sid\":1,\"pingInterval\":1,\"pingTimeout\":5000}"),
        t("0{\"sid\":\"abc\",\"pingInterval\":1,\"pingTimeout\":5000}x"),
        t(""),
        t("7"),
        t("é"),
        t(" 2"),
        t("x4"),
        Ws::Binary(vec![]),
        Ws::Binary(vec![0]),
        Ws::Binary(vec![52, 50]),
        Ws::Binary(vec![3, 4]),
        Ws::Ping(vec![]),
        Ws::Pong(vec![1]),
        Ws::Close(None),
    ]
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum ESt {
    Initial,
    Active,
    Closed,
}

/// The reference session.
fn engine_ref(st: &mut ESt, m: &Ws) -> Option<EPacket> {
    if *st == ESt::Closed {
        return None;
    }
    match m {
        Ws::Text(t) => match (t.chars().next()?, *st) {
            ('0', ESt::Initial) => {
                let o = match parse_json(&t[1..])? {
                    J::Obj(o) => o,
                    _ => return None,
                };
                let f = |n: &str| o.iter().find(|x| x.0 == n).map(|x| x.1.clone());
                let num = |n: &str| match f(n) {
                    Some(J::Num(n)) => n.parse::<u64>().ok(),
                    _ => None,
                };
                let sid = match f("sid")? {
                    J::Str(s) => s,
                    _ => return None,
                };
                let r = EPacket::Open(engine::Open {
                    sid,
                    // If they do not fit, the reference has something the decoder cannot have
                    ping_timeout: num("pingTimeout")?.try_into().unwrap_or(7),
                    ping_interval: num("pingInterval")?.try_into().unwrap_or(7),
                });
                *st = ESt::Active;
                Some(r)
            }
            ('1', ESt::Active) => {
                *st = ESt::Closed;
                Some(EPacket::Close)
            }
            ('2', ESt::Active) => Some(EPacket::Ping),
            ('3', ESt::Active) => Some(EPacket::Pong),
            ('4', ESt::Active) => Some(EPacket::Message(EMsg::Text(t[1..].to_string().into()))),
            _ => None,
        },
        Ws::Binary(d) => match (d.first(), *st) {
            (Some(4), ESt::Active) => Some(EPacket::Message(EMsg::Binary(d[1..].to_vec().into()))),
            _ => None,
        },
        _ => None,
    }
}

fn session_step(d: &mut Decoder, st: &mut ESt, m: &Ws) -> Result<(), Viol> {
    step();
    let before = *st;
    let want = engine_ref(st, m);
    let got = guard(|| {
        d.decode(m.clone()).map_err(|e| {
            let _ = format!("{:?}", e);
            e.to_string()
        })
    });
    let key = || format!("engine:{:?}:{}", before, short(&format!("{:?}", m)).replace(char::is_whitespace, "_"));
    match (got, want) {
        (Ok(Ok(g)), Some(w)) if g == w => Ok(()),
        (Ok(Err(_)), None) => Ok(()),
        (g, w) => Err(viol(
            key(),
            format!("in state {:?}, {} decodes as {:?}; expected {:?}", before, short(&format!("{:?}", m)), g, w),
        )),
    }
}

fn replay(seq: &[usize], a: &[Ws]) -> Result<(), Viol> {
    let mut d = Decoder::new();
    let mut st = ESt::Initial;
    for i in seq {
        session_step(&mut d, &mut st, &a[*i])?;
    }
    Ok(())
}

fn histories(prefix: &mut Vec<usize>, left: usize, a: &[Ws]) -> Result<(), Viol> {
    if left == 0 {
        return replay(prefix, a);
    }
    for i in 0..a.len() {
        prefix.push(i);
        histories(prefix, left - 1, a)?;
        prefix.pop();
    }
    Ok(())
}

pub fn c05(tier: Tier) -> Vec<Scenario> {
    vec![
        scenario("all sequences of engine packets", 0, move || {
            let a = engine_alphabet();
            let mut p = vec![choose(a.len()), choose(a.len())];
            log_line(|| format!("all continuations of {:?}", p.iter().map(|i| a[*i].clone()).collect::<Vec<_>>()));
            histories(&mut p, 3, &a)?;
            Ok(0)
        }),
        scenario("long sequences of a few packets", 0, move || {
            let a = engine_alphabet();
            let few: Vec<Ws> = [0, 1, 2, 5, 8, 15, 11].iter().map(|i| a[*i].clone()).collect();
            let mut p = vec![choose(few.len()), choose(few.len())];
            log_line(|| format!("all continuations of {:?}", p.iter().map(|i| few[*i].clone()).collect::<Vec<_>>()));
            histories(&mut p, tier.pick(6, 7), &few)?;
            Ok(0)
        }),
        scenario("open data", 0, || {
            let sid = pick(&["\"\"", "\"é漢\\u0041\\n\"", "\"x\"", "null", "1", "[]"]);
            let nums = ["0", "25000", "18446744073709551615", "18446744073709551616", "-1", "1.5", "\"1\"", "null", "1e3", "true"];
            let i = nums[choose(nums.len())];
            let t = nums[choose(nums.len())];
            let order = choose(3);
            let extra = pick(&["", "\"upgrades\":[\"x\"],\"maxPayload\":1e6,", "\"ping_interval\":7,\"pingtimeout\":8,"]);
            let ws = pick(&["", " ", "\n"]);
            let f = [
                format!("\"sid\":{}{}", ws, sid),
                format!("\"pingInterval\"{}:{}", ws, i),
                format!("\"pingTimeout\":{}{}", t, ws),
            ];
            let o = [[0, 1, 2], [2, 0, 1], [1, 2, 0]][order];
            let m = Ws::Text(format!("0{}{{{}{},{},{}}}", ws, extra, f[o[0]], f[o[1]], f[o[2]]));
            log_line(|| format!("{:?}", m));
            let mut d = Decoder::new();
            let mut st = ESt::Initial;
            session_step(&mut d, &mut st, &m)?;
            // the state afterwards
            session_step(&mut d, &mut st, &Ws::Text("4x".into()))?;
            session_step(&mut d, &mut st, &engine_alphabet()[0])?;
            Ok(digest(&format!("{:?}", m)))
        }),
        scenario("open data of every form", 0, || {
            let mut all: Vec<String> = Vec::new();
            for w in words() {
                all.push(format!("{{\"sid\":{},\"pingInterval\":1,\"pingTimeout\":2}}", quote(w)));
                all.push(format!("{{{}:[{{\"sid\":1}},null],\"sid\":\"s\",\"pingInterval\":1,\"pingTimeout\":2}}", quote(&format!("~{}", w))));
            }
            for e in edges() {
                all.push(format!("{{\"sid\":\"s\",\"pingInterval\":{},\"pingTimeout\":2}}", e));
                all.push(format!("{{\"sid\":\"s\",\"pingInterval\":1,\"pingTimeout\":{}}}", e));
                all.push(format!("{{\"sid\":\"s\",\"pingInterval\":{0},\"pingTimeout\":{0}}}", e));
            }
            for x in ["\\u0000", "\\ud83d\\ude00", "\\/", "\\\\", "\\\"", "\\b\\f\\n\\r\\t", "\u{7f}", "\\u002F"] {
                all.push(format!("{{\"sid\":\"{}\",\"pingInterval\":1,\"pingTimeout\":2}}", x));
            }
            let c: Vec<Vec<String>> = all.chunks(32).map(|c| c.to_vec()).collect();
            for t in pick(&c) {
                let m = Ws::Text(format!("0{}", t));
                log_line(|| short(&format!("{:?}", m)));
                let mut d = Decoder::new();
                let mut st = ESt::Initial;
                session_step(&mut d, &mut st, &m)?;
                session_step(&mut d, &mut st, &Ws::Text("4x".into()))?;
                session_step(&mut d, &mut st, &m)?;
            }
            Ok(0)
        }),
        scenario("message payloads of every form", 0, || {
            let mut all: Vec<Ws> = Vec::new();
            for w in words() {
                for t in [format!("4{}", w), format!("4 {}", w), format!("4{} ", w), format!("4{0}{0}", w), format!("4\u{feff}{}\u{2029}", w)] {
                    all.push(Ws::Text(t));
                }
            }
            for c in 0..=255u8 {
                for d in [vec![4, c], vec![4, c, 0], vec![4, 0, c], vec![4, 4, c, c]] {
                    all.push(Ws::Binary(d));
                }
            }
            for w in words().iter().filter(|w| w.len() > 14) {
                let mut d = vec![4];
                d.extend_from_slice(w.as_bytes());
                all.push(Ws::Binary(d.clone()));
                d.extend(vec![0; w.len()]);
                all.push(Ws::Binary(d));
            }
            let c: Vec<Vec<Ws>> = all.chunks(64).map(|c| c.to_vec()).collect();
            // all through one decoder
            let mut d = Decoder::new();
            let mut st = ESt::Initial;
            session_step(&mut d, &mut st, &engine_alphabet()[0])?;
            for m in pick(&c) {
                log_line(|| short(&format!("{:?}", m)));
                session_step(&mut d, &mut st, &m)?;
            }
            session_step(&mut d, &mut st, &Ws::Text("1".into()))?;
            session_step(&mut d, &mut st, &Ws::Text("2".into()))
                .map(|_| 0)
        }),
        scenario("a very long session", 0, move || {
            let n = tier.pick(70_000, 1_000_000);
            let few = [Ws::Text("4x".into()), Ws::Binary(vec![4, 1]), Ws::Text("2".into()), Ws::Text("3".into()), Ws::Text("0{}".into()), Ws::Text("".into())];
            let k = choose(few.len() + 1);
            let mut d = Decoder::new();
            let mut st = ESt::Initial;
            session_step(&mut d, &mut st, &engine_alphabet()[0])?;
            for i in 0..n {
                session_step(&mut d, &mut st, &few[if k < few.len() { k } else { i % few.len() }])?;
            }
            session_step(&mut d, &mut st, &Ws::Text("1".into()))?;
            session_step(&mut d, &mut st, &Ws::Text("4x".into())).map(|_| k as u64)
        }),
        scenario("payloads on packets that carry none", 0, || {
            // Whether they are errors is left open, but not what follows.
            let k = choose(3);
            let mut all = vec!["probe".to_string(), " ".into(), "\n".into(), "0".into(), "{}".into(), "null".into(), "x".repeat(70_000)];
            all.extend(words().iter().map(|w| w.to_string()));
            let c: Vec<Vec<String>> = all.chunks(32).map(|c| c.to_vec()).collect();
            let a = engine_alphabet();
            for w in pick(&c).iter().filter(|w| !w.is_empty()) {
                let m = Ws::Text(format!("{}{}", k + 1, w));
                log_line(|| short(&format!("{:?}", m)));
                let key = || format!("engine:payload:{}", short(&format!("{:?}", m)).replace(char::is_whitespace, "_"));
                let (mut d, mut st) = (Decoder::new(), ESt::Initial);
                if let Ok(p) = guard(|| d.decode(m.clone()).map_err(|e| e.to_string())).map_err(|p| viol(key(), p))? {
                    return Err(viol(key(), format!("before the open packet: {:?}", p)));
                }
                session_step(&mut d, &mut st, &a[0])?;
                let want = [EPacket::Close, EPacket::Ping, EPacket::Pong][k].clone();
                match guard(|| d.decode(m.clone()).map_err(|e| e.to_string())).map_err(|p| viol(key(), p))? {
                    Ok(p) if p == want => {
                        if k == 0 {
                            st = ESt::Closed
                        }
                    }
                    Ok(p) => return Err(viol(key(), format!("decodes as {:?}", p))),
                    Err(_) => {}
                }
                for m in [&a[4], &a[2], &a[0], &a[8], &a[1], &a[2]] {
                    session_step(&mut d, &mut st, m)?;
                }
            }
            Ok(0)
        }),
        scenario("every first byte", 0, || {
            let st0 = choose(3);
            let bin = choose(2) == 0;
            let tail = choose(2) == 0;
            for c in 0u32..=0x17f {
                let ch = match char::from_u32(c) {
                    Some(c) => c,
                    None => continue,
                };
                if !bin && tail && "123".contains(ch) {
                    continue; // payload on a packet that carries none: left open
                }
                let a = engine_alphabet();
                let mut d = Decoder::new();
                let mut st = ESt::Initial;
                for m in [&a[0], &a[1]][..st0].iter() {
                    session_step(&mut d, &mut st, m)?;
                }
                let m = if bin {
                    Ws::Binary(if tail { vec![c as u8, 4] } else { vec![c as u8] })
                } else {
                    Ws::Text(if tail { format!("{}4", ch) } else { ch.to_string() })
                };
                session_step(&mut d, &mut st, &m)?;
                session_step(&mut d, &mut st, &Ws::Text("4x".into()))?;
            }
            Ok(0)
        }),
        scenario("encoders: payloads of every form", 0, || {
            let c: Vec<_> = words().chunks(32).collect();
            for w in pick(&c) {
                step();
                log_line(|| short(w));
                let key = || format!("encode:{}", short(w).replace(char::is_whitespace, "_"));
                let bytes = [&[4u8], w.as_bytes()].concat();
                let t = guard(|| [engine::encode_message(w), engine::package_message(format!("4{}", w))]).map_err(|p| viol(key(), p))?;
                let b = guard(|| [engine::encode_binary(w.as_bytes()), engine::package_binary(bytes.clone())]).map_err(|p| viol(key(), p))?;
                for (g, want) in t.iter().map(|g| (g, Ws::Text(format!("4{}", w)))).chain(b.iter().map(|g| (g, Ws::Binary(bytes.clone())))) {
                    if *g != want {
                        return Err(viol(key(), format!("{} instead of {}", short(&format!("{:?}", g)), short(&format!("{:?}", want)))));
                    }
                }
            }
            Ok(0)
        }),
        scenario("encoders", 0, || {
            step();
            let texts = ["", "x", "4", "é𝄞", "2[\"a\"]", "\u{0}"];
            let datas: [&[u8]; 6] = [&[], &[4], &[0], &[255, 4, 0], &[52], &[7; 300]];
            let k = choose(6);
            let (want, got, exact) = match k {
                0 | 1 => {
                    let t = texts[choose(texts.len())];
                    let w = Ws::Text(format!("4{}", t));
                    let g = guard(|| {
                        if k == 0 {
                            engine::encode_message(t)
                        } else {
                            engine::package_message(format!("4{}", t))
                        }
                    });
                    (Some(EPacket::Message(EMsg::Text(t.to_string().into()))), g, w)
                }
                2 | 3 => {
                    let d = datas[choose(datas.len())];
                    let mut v = vec![4];
                    v.extend_from_slice(d);
                    let w = Ws::Binary(v.clone());
                    let g = guard(|| if k == 2 { engine::encode_binary(d) } else { engine::package_binary(v) });
                    (Some(EPacket::Message(EMsg::Binary(d.to_vec().into()))), g, w)
                }
                4 => (Some(EPacket::Ping), guard(engine::encode_ping), Ws::Text("2".into())),
                _ => (Some(EPacket::Pong), guard(engine::encode_pong), Ws::Text("3".into())),
            };
            log_line(|| format!("{:?}", got));
            let key = format!("encode:{}", k);
            let g = got.map_err(|p| viol(key.clone(), p))?;
            if g != exact {
                return Err(viol(key, format!("{:?} instead of {:?}", g, exact)));
            }
            let mut d = Decoder::new();
            let _ = d.decode(engine_alphabet()[0].clone());
            match d.decode(g.clone()) {
                Ok(p) if Some(&p) == want.as_ref() => Ok(digest(&format!("{:?}", g))),
                o => Err(viol(key, format!("{:?} decodes as {:?}", g, o))),
            }
        }),
    ]
}

// ---------------------------------------------------------------- C08

fn ends(n: usize) -> Vec<usize> {
    (0..=n + 2).chain(vec![usize::MAX - 1, usize::MAX]).collect()
}

/// View after clipping; None if it denotes no slice.
fn sub(view: Option<(usize, usize)>, a: usize, b: usize) -> Option<(usize, usize)> {
    let (s, e) = view?;
    let len = e - s;
    let b = b.min(len);
    if a > b {
        return None;
    }
    Some((s + a, s + b))
}

fn check_view<S, F>(o: &OwnedSubslice<S>, data: &S, view: Option<(usize, usize)>, what: &str, eq: F) -> Result<(), Viol>
where
    S: std::ops::Index<std::ops::Range<usize>> + Clone,
    S::Output: PartialEq + std::fmt::Debug,
    F: Fn(&S::Output, &S::Output) -> bool,
{
    step();
    let key = || format!("subslice:{}", what.replace(char::is_whitespace, ""));
    let want = match view {
        Some((a, b)) => guard(|| &data[a..b]),
        None => Err("no such slice".into()),
    };
    let got = guard(|| &**o);
    match (got, want) {
        (Err(_), Err(_)) => Ok(()),
        (Ok(g), Ok(w)) if eq(g, w) => {
            let debug = [
                (format!("{:?}", o), format!("{:?}", w)),
                (format!("{:#?}", o), format!("{:#?}", w)),
                (format!("{:8?}", o), format!("{:8?}", w)),
                (format!("{:<#04x?}", o), format!("{:<#04x?}", w)),
                (format!("{:+.1?}", o), format!("{:+.1?}", w)),
            ];
            if let Some((g, w)) = debug.iter().find(|x| x.0 != x.1) {
                return Err(viol(key(), format!("{}: prints as {:?} instead of {:?}", what, g, w)));
            }
            if !(*o == &*w) || !(&*w == *o) || o.clone() != *o {
                return Err(viol(key(), format!("{}: comparison or clone differs", what)));
            }
            Ok(())
        }
        // an impossible range may also read as nothing, but never as elements
        (Ok(g), Err(_)) if format!("{:?}", g) == "[]" || format!("{:?}", g) == "\"\"" => Ok(()),
        (g, w) => Err(viol(key(), format!("{}: reads as {:?} instead of {:?}", what, g, w))),
    }
}

pub fn c08(tier: Tier) -> Vec<Scenario> {
    let maxlen = tier.pick(5usize, 6);
    vec![
        scenario("vector: chains of subslices", 0, move || {
            let n = choose(maxlen + 1);
            let data: Vec<u8> = (0..n).map(|i| 10 + i as u8).collect();
            let base = choose(2);
            let (mut o, mut view, mut what);
            if base == 0 {
                o = OwnedSubslice::from(data.clone());
                view = Some((0, n));
                what = format!("{:?}", data);
            } else {
                let a = choose(n + 1);
                let z = a + choose(n + 1 - a);
                o = OwnedSubslice::new(data.clone(), a..z);
                view = Some((a, z));
                what = format!("{:?}[{}..{}]", data, a, z);
            }
            check_view(&o, &data, view, &what, |a: &[u8], b| a == b)?;
            let depth = choose(tier.pick(3, 4));
            for _ in 0..depth {
                let es = ends(n);
                let a = choose(n + 3);
                let z = es[choose(es.len())];
                what.push_str(&format!(".subslice({}..{})", a, z));
                let prev = o.clone();
                view = sub(view, a, z);
                o = match guard(|| prev.subslice(a..z)) {
                    Ok(x) => x,
                    Err(_) if view.is_none() => return Ok(1),
                    Err(p) => return Err(viol(format!("subslice:{}", what), format!("{}: {}", what, p))),
                };
                check_view(&o, &data, view, &what, |a: &[u8], b| a == b)?;
            }
            log_line(|| format!("{} = {:?}", what, view));
            // writes go to the view only
            if let Some((a, z)) = view {
                if z > a {
                    let i = choose(z - a);
                    let mut c = o.clone();
                    c[i] = 99;
                    let mut d = data.clone();
                    d[a + i] = 99;
                    check_view(&c, &d, view, &format!("{} with [{}] = 99", what, i), |a: &[u8], b| a == b)?;
                    check_view(&o, &data, view, &format!("{} after a clone was written", what), |a: &[u8], b| a == b)?;
                    if c == o {
                        return Err(viol("subslice:eq", format!("{}: equal after a write", what)));
                    }
                }
            }
            Ok(digest(&format!("{:?}{:?}", data, view)))
        }),
        scenario("vector: ranges outside the data", 0, move || {
            let n = choose(4);
            let data: Vec<u8> = (0..n as u8).collect();
            let es = ends(n);
            let a = es[choose(es.len())];
            let z = es[choose(es.len())];
            let what = format!("new({:?}, {}..{})", data, a, z);
            log_line(|| what.clone());
            let o = match guard(|| OwnedSubslice::new(data.clone(), a..z)) {
                Ok(o) => o,
                Err(_) if a > z || z > n => return Ok(1),
                Err(p) => return Err(viol(what.clone(), p)),
            };
            let view = if a <= z && z <= n { Some((a, z)) } else { None };
            check_view(&o, &data, view, &what, |a: &[u8], b| a == b)?;
            Ok(2)
        }),
        scenario("string: chains of subslices", 0, move || {
            let data = pick(&["", "a", "abc", "é漢", "aé𝄞b"]).to_string();
            let n = data.len();
            let mut o = OwnedSubslice::from(data.clone());
            let mut view = Some((0, n));
            let mut what = format!("{:?}", data);
            let depth = choose(tier.pick(4, 5));
            for _ in 0..depth {
                let es = ends(n);
                let a = choose(n + 2);
                let z = es[choose(es.len())];
                what.push_str(&format!(".subslice({}..{})", a, z));
                view = sub(view, a, z);
                o = match guard(|| o.clone().subslice(a..z)) {
                    Ok(x) => x,
                    Err(p) => {
                        // a cut inside a character may be refused at once
                        let ok = view.map_or(true, |(a, z)| !data.is_char_boundary(a) || !data.is_char_boundary(z));
                        if ok {
                            return Ok(1);
                        }
                        return Err(viol(format!("subslice:{}", what), format!("{}: {}", what, p)));
                    }
                };
            }
            log_line(|| what.clone());
            check_view(&o, &data, view, &what, |a: &str, b| a == b)?;
            if let Some((a, z)) = view {
                if let Ok(w) = guard(|| &data[a..z]) {
                    let display = [
                        (o.to_string(), w.to_string()),
                        (format!("{:6}|", o), format!("{:6}|", w)),
                        (format!("{:*^7.2}|", o), format!("{:*^7.2}|", w)),
                        (format!("{:>3.0}|", o), format!("{:>3.0}|", w)),
                        (format!("{:#}", o), format!("{:#}", w)),
                    ];
                    if let Some((g, w)) = display.iter().find(|x| x.0 != x.1) {
                        return Err(viol(format!("subslice:{}", what), format!("{} prints as {:?} instead of {:?}", what, g, w)));
                    }
                }
            }
            Ok(digest(&what))
        }),
        scenario("equality", 0, || {
            step();
            let data = pick(&["abab", "aaaa", "ab"]).to_string();
            let n = data.len();
            let r = || {
                let a = choose(n + 1);
                (a, a + choose(n + 1 - a))
            };
            let (a, z) = r();
            let (c, y) = r();
            let l = OwnedSubslice::new(data.clone(), a..z);
            let m = OwnedSubslice::new(data.clone(), c..y);
            let w = data[a..z] == data[c..y];
            log_line(|| format!("{:?} [{}..{}] [{}..{}]", data, a, z, c, y));
            if (l == m) != w || (m == l) != w || (l == &data[c..y]) != w || (&data[c..y] == l) != w {
                return Err(viol("subslice:eq", format!("{:?} {:?} compared wrongly", l, m)));
            }
            let lv = OwnedSubslice::new(data.clone().into_bytes(), a..z);
            let mv = OwnedSubslice::new(data.clone().into_bytes(), c..y);
            if (lv == mv) != w {
                return Err(viol("subslice:eq", format!("{:?} {:?} compared wrongly", lv, mv)));
            }
            // the same contents of other owners
            let other = OwnedSubslice::new(format!("..{}", data), c + 2..y + 2);
            if (l == other) != w || (other == l) != w {
                return Err(viol("subslice:eq", format!("{:?} {:?} compared wrongly", l, other)));
            }
            Ok(w as u64)
        }),
        scenario("other elements", 0, || {
            let r = |n: usize| {
                let a = choose(n + 1);
                (a, a + choose(n + 1 - a))
            };
            match choose(5) {
                0 => {
                    // what is not equal to itself stays so
                    let data = vec![1.5f32, f32::NAN, 0.0, -0.0];
                    let (a, z) = r(4);
                    let (c, y) = r(4);
                    let l = OwnedSubslice::new(data.clone(), a..z);
                    let m = OwnedSubslice::new(data.clone(), c..y);
                    let same = l.clone();
                    for (g, w, what) in [
                        (l == m, data[a..z] == data[c..y], "two views"),
                        (l == l, data[a..z] == data[a..z], "a view and itself"),
                        (l == same, data[a..z] == data[a..z], "a view and its clone"),
                        (l == &data[c..y], data[a..z] == data[c..y], "a view and a slice"),
                        (l == &*l, data[a..z] == data[a..z], "a view and its slice"),
                    ] {
                        if g != w || format!("{:5.1?}", l) != format!("{:5.1?}", &data[a..z]) {
                            return Err(viol("subslice:floats", format!("{:?}[{}..{}] [{}..{}]: {} compared as {}", data, a, z, c, y, what, g)));
                        }
                    }
                }
                1 => {
                    let data: Vec<String> = ["a", "", "ccc"].iter().map(|x| x.to_string()).collect();
                    let (a, z) = r(3);
                    let mut o = OwnedSubslice::new(data.clone(), a..z);
                    check_view(&o, &data, Some((a, z)), "strings", |a: &[String], b| a == b)?;
                    let c = o.clone();
                    o.iter_mut().for_each(|x| x.push('!'));
                    o.reverse();
                    let mut want = data.clone();
                    want[a..z].iter_mut().for_each(|x| x.push('!'));
                    want[a..z].reverse();
                    check_view(&o, &want, Some((a, z)), "strings written", |a: &[String], b| a == b)?;
                    check_view(&c, &data, Some((a, z)), "strings after a clone was written", |a: &[String], b| a == b)?;
                }
                2 => {
                    let data = [5u64, 6, 7, 8];
                    let (a, z) = r(4);
                    let (c, y) = r(4);
                    let o = OwnedSubslice::new(data, a..z);
                    check_view(&o, &data, Some((a, z)), "array", |a: &[u64], b| a == b)?;
                    let view = sub(Some((a, z)), c, y);
                    if view.is_some() {
                        check_view(&o.subslice(c..y), &data, view, "array, part", |a: &[u64], b| a == b)?;
                    }
                }
                3 => {
                    // sizes around every power of two that could be cut off
                    let n = 66_000;
                    let data: Vec<u32> = (0..n as u32).collect();
                    let at = |from: usize| pick(&[0usize, 1, 127, 255, 256, 257, 32_768, 65_535, 65_536, 65_999]).max(from);
                    let a = at(0);
                    let z = at(a) + 1;
                    let o = OwnedSubslice::from(data).subslice(a..z);
                    let view: Vec<u32> = (a.min(n) as u32..z.min(n) as u32).collect();
                    if *o != *view {
                        return Err(viol("subslice:long", format!("[{}..{}] of {} elements has {}", a, z, n, o.len())));
                    }
                    let (c, y) = (at(0), at(0));
                    if c <= y && c <= view.len() && *o.subslice(c..y) != view[c..y.min(view.len())] {
                        return Err(viol("subslice:long", format!("[{}..{}] of [{}..{}] of {} elements", c, y, a, z, n)));
                    }
                }
                _ => {
                    let n = choose(5);
                    let data = vec![(); n];
                    let (a, z) = r(n);
                    let o = OwnedSubslice::from(data.clone());
                    check_view(&o, &data, Some((0, n)), "nothing", |a: &[()], b| a == b)?;
                    check_view(&o.subslice(a..z), &data, Some((a, z)), "nothing, part", |a: &[()], b| a == b)?;
                }
            }
            step();
            Ok(3)
        }),
    ]
}

