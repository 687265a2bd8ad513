//! Enumerated values: leaves, compounds, headers.
use crate::val::Val;
use mcrt::explore::choose;

pub fn b(v: &[u8]) -> Val {
    Val::Bytes(v.to_vec())
}
pub fn s(t: &str) -> Val {
    Val::Str(t.to_string())
}
pub fn u8s(v: &[u8]) -> Val {
    Val::Seq(v.iter().map(|x| Val::U8(*x)).collect(), true)
}

pub fn strings() -> Vec<&'static str> {
    vec![
        "",
        "a",
        "a,b",
        "]",
        "[\"x\"]",
        "\"",
        "\\",
        "\u{0}\u{1f}\n\r\t\u{8}\u{c}",
        "é漢字𝄞\u{2028}\u{fffd}",
        "{\"_placeholder\":true,\"num\":0}",
        "_placeholder",
        "\u{7f}/<>&'",
    ]
}

/// Every serde scalar kind with its boundary values, byte strings and flat sequences.
pub fn leaves() -> Vec<Val> {
    let mut v = vec![
        Val::Bool(true),
        Val::Bool(false),
        Val::I8(-128),
        Val::I16(-32768),
        Val::I32(i32::MIN),
        Val::I64(i64::MIN),
        Val::I64(i64::MAX),
        Val::I128(i128::MIN),
        Val::U8(0),
        Val::U8(4),
        Val::U8(255),
        Val::U16(65535),
        Val::U32(u32::MAX),
        Val::U64(u64::MAX),
        Val::U128(u128::MAX),
        Val::F32(0.1),
        Val::F32(f32::NAN),
        Val::F64(-0.0),
        Val::F64(1e300),
        Val::F64(0.1),
        Val::F64(f64::INFINITY),
        Val::Char('x'),
        Val::Char('"'),
        Val::Char('𝄞'),
        Val::None,
        Val::Unit,
        Val::UnitStruct,
        Val::UnitVariant,
        Val::Disp("dis\"play".into()),
        Val::HrProbe,
        Val::Raw(" {\"a\": [1, 2.50, \"\\u0041\"]} ".into()),
        b(&[]),
        b(&[0]),
        b(&[4]),
        b(&[222, 173, 190, 239]),
        b(&[4, 255, 0, 4]),
        u8s(&[]),
        Val::Seq(vec![], false),
        u8s(&[0]),
        u8s(&[4]),
        u8s(&[4, 4, 255]),
        Val::Seq(vec![Val::U8(1), Val::U8(2)], false),
        Val::Tuple(vec![]),
        Val::Tuple(vec![Val::U8(1), Val::U8(4)]),
        Val::TupleStruct(vec![Val::U8(1), Val::U8(4)]),
        Val::TupleVariant(vec![Val::U8(1), Val::U8(4)]),
        Val::Map(vec![], true, false),
        Val::Map(vec![], false, true),
        Val::Struct(vec![]),
        Val::StructVariant(vec![]),
        Val::Seq(vec![Val::I8(1), Val::I8(2)], true),
        Val::Seq(vec![Val::U16(1)], true),
        Val::Seq(vec![Val::Char('a')], true),
        Val::Seq(vec![Val::Some(Box::new(Val::U8(1)))], true),
        Val::Seq(vec![Val::Newtype(Box::new(Val::U8(1)))], true),
        Val::Seq(vec![Val::NewtypeVariant(Box::new(Val::U8(1)))], true),
    ];
    v.extend(strings().into_iter().map(s));
    v
}

/// The leaves that matter below the first level.
pub fn core_leaves() -> Vec<Val> {
    vec![
        Val::U8(4),
        Val::I64(-5),
        s("q\"]"),
        Val::None,
        b(&[]),
        b(&[4, 7]),
        u8s(&[]),
        u8s(&[4]),
        u8s(&[255, 0, 4]),
        Val::Tuple(vec![Val::U8(4), Val::U8(9)]),
    ]
}

pub const COMPOUNDS: usize = 24;

/// Put a value somewhere inside a compound of every kind, with byte data before or after it.
pub fn compound(k: usize, c: Val) -> Val {
    let f: fn(Val) -> Box<Val> = Box::new;
    match k {
        0 => Val::Some(f(c)),
        1 => Val::Newtype(f(c)),
        2 => Val::NewtypeVariant(f(c)),
        3 => Val::Seq(vec![c], true),
        4 => Val::Seq(vec![c, Val::U8(7)], true),
        5 => Val::Seq(vec![Val::U8(1), c], true),
        6 => Val::Seq(vec![Val::U8(1), Val::U8(4), c, Val::U8(2)], false),
        7 => Val::Seq(vec![b(&[8]), c, u8s(&[5])], true),
        8 => Val::Tuple(vec![c, b(&[9])]),
        9 => Val::Tuple(vec![Val::U8(1), c]),
        10 => Val::TupleStruct(vec![u8s(&[3]), c]),
        11 => Val::TupleVariant(vec![c, u8s(&[3])]),
        12 => Val::Map(vec![(s("k"), c)], true, false),
        13 => Val::Map(vec![(s("a"), b(&[1])), (s("b\""), c), (s("z"), u8s(&[2]))], false, true),
        14 => Val::Map(vec![(Val::U8(3), c), (Val::I64(-4), Val::Unit)], true, false),
        15 => Val::Map(vec![(Val::Char('x'), c), (Val::UnitVariant, b(&[6]))], true, true),
        16 => Val::Map(vec![(Val::Newtype(f(s("n"))), c)], true, false),
        17 => Val::Map(vec![(Val::Bool(true), c)], true, false),
        18 => Val::Struct(vec![("f", Some(c)), ("g", Some(b(&[1, 2])))]),
        19 => Val::Struct(vec![("g", Some(u8s(&[1]))), ("h", None), ("f", Some(c))]),
        20 => Val::StructVariant(vec![("f", Some(c)), ("g", Some(b(&[])))]),
        21 => Val::StructVariant(vec![("h", None), ("f", Some(c))]),
        22 => Val::Seq(vec![c.clone(), c], true),
        _ => Val::Map(vec![(Val::U64(u64::MAX), c)], false, false),
    }
}

pub fn pick<T: Clone>(v: &[T]) -> T {
    v[choose(v.len())].clone()
}

pub fn namespaces() -> Vec<&'static str> {
    vec![
        "/", "/nsp", "/a/b", "/a?x=1&y=2", "/ünï漢", "/[x]", "/a\"b", "/1", "/12-3", "/a b", "//", "/2[", "/-",
    ]
}
pub fn ids() -> Vec<u64> {
    vec![0, 1, 9, 10, 4294967296, u64::MAX]
}
pub fn events() -> Vec<&'static str> {
    vec![
        "event",
        "",
        "a,b",
        "/nsp,",
        "[\"x\"]",
        "é漢𝄞",
        "\u{0}\n\t\\\"",
        "\u{2028}",
        "1",
        "message",
    ]
}

#[derive(Clone, Debug)]
pub struct Header {
    pub event: Option<&'static str>,
    pub ns: &'static str,
    pub id: Option<u64>,
    pub binary: bool,
}

impl Header {
    pub fn builder(&self) -> socket_io_protocol::socket::PacketBuilder {
        use socket_io_protocol::socket::PacketBuilder;
        match self.event {
            Some(e) => PacketBuilder::new_event(e, self.ns, self.id.map(|i| i as _), self.binary),
            None => PacketBuilder::new_ack(self.ns, self.id.unwrap() as _, self.binary),
        }
    }
}

/// All header combinations (free choices).
pub fn header_full() -> Header {
    let binary = choose(2) == 1;
    let ack = choose(2) == 1;
    let ns = pick(&namespaces());
    if ack {
        Header {
            event: None,
            ns,
            id: Some(pick(&ids())),
            binary,
        }
    } else {
        let k = choose(ids().len() + 1);
        Header {
            event: Some(pick(&events())),
            ns,
            id: if k == 0 { None } else { Some(ids()[k - 1]) },
            binary,
        }
    }
}

/// A few representative headers.
pub fn header_few() -> Header {
    let k = choose(4);
    Header {
        event: if k < 2 { Some("ev") } else { None },
        ns: if k % 2 == 0 { "/" } else { "/n" },
        id: if k == 0 { None } else { Some(12) },
        binary: choose(2) == 0,
    }
}

/// Names of every form: each ASCII character alone and around a letter, words of the protocol, and long names.
pub fn words() -> &'static [&'static str] {
    static WORDS: std::sync::OnceLock<Vec<&'static str>> = std::sync::OnceLock::new();
    WORDS.get_or_init(|| {
        let mut v: Vec<String> = Vec::new();
        for b in 0..128u8 {
            let ch = b as char;
            v.extend([format!("{}", ch), format!("{}x", ch), format!("x{}", ch), format!("x{}y", ch)]);
        }
        for w in [
            "", "__", "__proto__", "connect", "connecting", "connect_error", "disconnect", "disconnecting", "error", "message",
            "open", "close", "ping", "pong", "reconnect", "newListener", "removeListener", "*", "**", "ack", "event", "true",
            "null", "0", "00", "01", "10", "1e0", "1.0", "-1", "é", "e\u{301}", "É", "ß", "ss", "\u{212a}", "k", "\u{a0}",
            "\u{feff}x", "\u{2028}", "\u{fffd}", "\u{1f600}", "\u{1f600}\u{1f600}", "漢", "漢字", "a,b", "[]", "[\"x\"]",
            "\\\"", "\\u0041", "x/", "a/b", "a//b", "?a=b", "a?b=c&d", "1-", "51-", "2[", "/", "/a,",
        ] {
            v.push(w.to_string());
        }
        for n in [15usize, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1_000, 65_535, 65_536, 65_537] {
            v.push("n".repeat(n));
        }
        v.sort();
        v.dedup();
        v.into_iter().map(|w| &*Box::leak(w.into_boxed_str())).collect()
    })
}

/// The powers of two and of ten that fit, and their neighbours.
pub fn edges() -> Vec<u64> {
    let mut v: Vec<u64> = vec![0, u64::MAX, u64::MAX - 1];
    for k in 0..64 {
        v.extend([(1u64 << k) - 1, 1 << k, (1 << k) + 1]);
    }
    for k in 0..20 {
        let p = 10u64.pow(k);
        v.extend([p - 1, p, p + 1]);
    }
    v.sort();
    v.dedup();
    v
}

/// A number of the repository's, whatever its type.
pub fn n64<T: TryInto<u64>>(n: T) -> u64 {
    n.try_into().unwrap_or(u64::MAX)
}
