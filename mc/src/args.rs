//! Checks C06 and C07: reading arguments of packets with attachments.
use std::collections::{BTreeMap, HashMap};
use std::sync::Mutex;

use mcrt::explore::{choose, digest, log_line, step, Scenario, Viol};
use mcrt::sched::guard;
use serde::Deserialize;
use serde_json::value::RawValue;
use serde_json::Value;
use socket_io_protocol::engine::Message as EMsg;
use socket_io_protocol::socket::{self, Arg, Args, Data, DeserializeResult, Packet};

use crate::codec::short;
use crate::driver::{scenario, viol, Tier};
use crate::dynde::{set_type, Dyn, DynVal, Ty, VTy};
use crate::reference::{quote, to_text, J};
use crate::vals::{edges, pick, words};

pub fn decode(text: &str, att: &[Vec<u8>]) -> Result<Packet, String> {
    match socket::deserialize(EMsg::Text(text.to_string().into())).map_err(|e| e.to_string())? {
        DeserializeResult::Packet(p) => Ok(p),
        DeserializeResult::DataNeeded(p) => {
            socket::deserialize_partial(p, att.iter().map(|d| EMsg::Binary(d.clone().into()))).map_err(|e| e.to_string())
        }
    }
}

pub fn args_of(p: &Packet) -> Args<'_> {
    match p.data() {
        Data::Event { args, .. } | Data::Ack { args, .. } => args,
        _ => panic!("packet without arguments"),
    }
}

fn fields(v: Vec<(&'static str, Ty)>) -> &'static [(&'static str, Ty)] {
    static C: Mutex<Option<HashMap<String, &'static [(&'static str, Ty)]>>> = Mutex::new(None);
    let k = format!("{:?}", v);
    let mut c = C.lock().unwrap();
    c.get_or_insert_with(HashMap::new)
        .entry(k)
        .or_insert_with(|| Box::leak(v.into_boxed_slice()))
}
fn variants(v: Vec<(&'static str, VTy)>) -> &'static [(&'static str, VTy)] {
    static C: Mutex<Option<HashMap<String, &'static [(&'static str, VTy)]>>> = Mutex::new(None);
    let k = format!("{:?}", v);
    let mut c = C.lock().unwrap();
    c.get_or_insert_with(HashMap::new)
        .entry(k)
        .or_insert_with(|| Box::leak(v.into_boxed_slice()))
}

fn bx(t: Ty) -> Box<Ty> {
    Box::new(t)
}

// ---------------------------------------------------------------- C06

fn contents() -> Vec<Vec<u8>> {
    vec![vec![], vec![4], vec![222, 173, 0, 4], b"ab".to_vec(), (0..=255).collect()]
}

/// A placeholder and a type to read it as.
fn leaf() -> (J, Ty) {
    let b = pick(&contents());
    let n = b.len();
    let t = match choose(11) {
        9 => Ty::OnlyBytes(true),
        10 => Ty::OnlyBytes(false),
        0 => Ty::Bytes,
        1 => Ty::BorrowedBytes,
        2 => Ty::Seq(bx(Ty::U8)),
        3 => Ty::Seq(bx(Ty::U16)),
        4 => Ty::Tuple(vec![Ty::U8; n]),
        5 => Ty::TupleStruct(vec![Ty::U8; n]),
        6 => Ty::Any,
        7 => Ty::Seq(bx(Ty::Any)),
        _ => Ty::Tuple(vec![Ty::U64; n]),
    };
    (J::Bytes(b), t)
}

/// The access paths around a value.
const PATHS: usize = 25;
fn path(k: usize, (j, t): (J, Ty)) -> (J, Ty) {
    let one = || J::Num("1".into());
    let o = |v: Vec<(&str, J)>| J::Obj(v.into_iter().map(|(k, v)| (k.to_string(), v)).collect());
    let other = || J::Bytes(vec![9, 9]);
    match k {
        0 => (j, Ty::Opt(bx(t))),
        1 => (j, Ty::Newtype(bx(t))),
        2 => (J::Arr(vec![j]), Ty::Seq(bx(t))),
        3 => (J::Arr(vec![j.clone(), j]), Ty::Seq(bx(t))),
        4 => (J::Arr(vec![one(), j]), Ty::Tuple(vec![Ty::U8, t])),
        5 => (J::Arr(vec![other(), j]), Ty::TupleStruct(vec![Ty::Bytes, t])),
        6 => (o(vec![("k", j)]), Ty::Map(bx(Ty::Str), bx(t))),
        7 => (o(vec![("k", j.clone()), ("l", j)]), Ty::Map(bx(Ty::CowStr), bx(t))),
        8 => (o(vec![("1", j.clone()), ("2", j)]), Ty::Map(bx(Ty::U8), bx(t))),
        9 => (o(vec![("f", j)]), Ty::Struct(fields(vec![("f", t)]), true)),
        10 => (
            o(vec![("g", one()), ("f", j)]),
            Ty::Struct(fields(vec![("f", t), ("g", Ty::U8)]), false),
        ),
        11 => (
            o(vec![("f", j), ("g", other())]),
            Ty::Struct(fields(vec![("g", Ty::Bytes), ("f", t)]), false),
        ),
        12 => (
            // an unknown field holding a placeholder
            o(vec![("zz", other()), ("f", j)]),
            Ty::Struct(fields(vec![("f", t)]), false),
        ),
        13 => (o(vec![("V", j)]), Ty::Enum(variants(vec![("U", VTy::Unit), ("V", VTy::Newtype(t))]))),
        14 => (
            o(vec![("T", J::Arr(vec![j, one()]))]),
            Ty::Enum(variants(vec![("T", VTy::Tuple(vec![t, Ty::U8]))])),
        ),
        15 => (
            o(vec![("S", o(vec![("a", j), ("b", other())]))]),
            Ty::Enum(variants(vec![("S", VTy::Struct(fields(vec![("a", t), ("b", Ty::Bytes)])))])),
        ),
        16 => (o(vec![("k", j)]), Ty::Any),
        17 => (J::Arr(vec![j, J::Null]), Ty::Any),
        18 => (J::Arr(vec![j, J::Null]), Ty::Seq(bx(Ty::Opt(bx(t))))),
        19 => (
            o(vec![("f", j)]),
            Ty::Struct(fields(vec![("f", Ty::Opt(bx(t))), ("g", Ty::Opt(bx(Ty::Bytes)))]), false),
        ),
        20 => (j, Ty::Newtype(bx(Ty::Opt(bx(Ty::Newtype(bx(t))))))),
        21 => (J::Arr(vec![j, other()]), Ty::Struct(fields(vec![("f", t), ("g", Ty::Bytes)]), false)),
        22 => (
            // the content of a tuple variant is itself a placeholder
            o(vec![("T", J::Bytes(vec![5, 6]))]),
            Ty::Enum(variants(vec![("T", VTy::Tuple(vec![Ty::U8, Ty::U8]))])),
        ),
        23 => (
            // fields of a struct variant in sequence form
            o(vec![("S", J::Bytes(vec![5, 6]))]),
            Ty::Enum(variants(vec![("S", VTy::Struct(fields(vec![("a", Ty::U8), ("b", Ty::U8)])))])),
        ),
        _ => (
            // a struct in sequence form
            J::Arr(vec![j, J::Bytes(vec![5, 6])]),
            Ty::Tuple(vec![t, Ty::Struct(fields(vec![("a", Ty::U8), ("b", Ty::U8)]), false)]),
        ),
    }
}

/// Types that only exist as borrowed cannot read an array; the same content is read as a sequence.
fn unborrow(t: &Ty) -> Ty {
    let f = |x: &Ty| bx(unborrow(x));
    match t {
        Ty::BorrowedBytes | Ty::OnlyBytes(_) => Ty::Seq(bx(Ty::U8)),
        Ty::Opt(x) => Ty::Opt(f(x)),
        Ty::Newtype(x) => Ty::Newtype(f(x)),
        Ty::Seq(x) => Ty::Seq(f(x)),
        Ty::Tuple(v) => Ty::Tuple(v.iter().map(unborrow).collect()),
        Ty::TupleStruct(v) => Ty::TupleStruct(v.iter().map(unborrow).collect()),
        Ty::Map(k, v) => Ty::Map(f(k), f(v)),
        Ty::Struct(s, d) => Ty::Struct(fields(s.iter().map(|(n, t)| (*n, unborrow(t))).collect()), *d),
        Ty::Enum(v) => Ty::Enum(variants(
            v.iter()
                .map(|(n, t)| {
                    (
                        *n,
                        match t {
                            VTy::Unit => VTy::Unit,
                            VTy::Newtype(t) => VTy::Newtype(unborrow(t)),
                            VTy::Tuple(v) => VTy::Tuple(v.iter().map(unborrow).collect()),
                            VTy::Struct(s) => VTy::Struct(fields(s.iter().map(|(n, t)| (*n, unborrow(t))).collect())),
                        },
                    )
                })
                .collect(),
        )),
        t => t.clone(),
    }
}

/// Replace byte leaves by placeholder objects, numbered through `num`.
fn ph(j: &J, k: &mut usize, num: &mut dyn FnMut(usize, &[u8]) -> String) -> J {
    match j {
        J::Bytes(b) => {
            let n = num(*k, b);
            *k += 1;
            J::Obj(vec![("_placeholder".into(), J::Bool(true)), ("num".into(), J::Num(n))])
        }
        J::Arr(v) => J::Arr(v.iter().map(|x| ph(x, k, num)).collect()),
        J::Obj(o) => J::Obj(o.iter().map(|(n, x)| (n.clone(), ph(x, k, num))).collect()),
        x => x.clone(),
    }
}

fn leaves_of(j: &J) -> Vec<Vec<u8>> {
    let mut v = Vec::new();
    let mut k = 0;
    ph(j, &mut k, &mut |_, b| {
        v.push(b.to_vec());
        String::new()
    });
    v
}

/// Texts and attachments for different numberings.
fn numberings(j: &J) -> Vec<(String, Vec<Vec<u8>>)> {
    let l = leaves_of(j);
    let n = l.len();
    let make = |f: &dyn Fn(usize) -> usize, att: Vec<Vec<u8>>| {
        let mut k = 0;
        (to_text(&ph(j, &mut k, &mut |i, _| f(i).to_string())), att)
    };
    let mut out = vec![make(&|i| i, l.clone())];
    if n > 1 {
        out.push(make(&|i| n - 1 - i, l.iter().rev().cloned().collect()));
    }
    // unused attachments before and after
    let mut a = vec![vec![1, 1]];
    a.extend(l.clone());
    a.push(vec![2]);
    out.push(make(&|i| i + 1, a));
    // two-digit numbers
    let mut a: Vec<Vec<u8>> = (0..10).map(|i| vec![100 + i]).collect();
    a.extend(l.clone());
    out.push(make(&|i| i + 10, a));
    // equal contents share an attachment
    if n > 1 && l[0] == l[1] {
        let mut a = vec![l[0].clone()];
        a.extend(l[2..].iter().cloned());
        out.push(make(&|i| i.saturating_sub(1), a));
    }
    // blanks inside the placeholder
    let (t, a) = out[0].clone();
    out.push((t.replace("{\"_placeholder\":true,\"num\":", "{ \"_placeholder\" :\ttrue ,\n\"num\" : "), a));
    out
}

fn read(a: &Arg, t: &Ty) -> Result<Result<DynVal, String>, String> {
    set_type(t.clone());
    guard(|| {
        a.deserialize::<Dyn>().map(|d| d.0).map_err(|e| {
            let _ = format!("{:?}", e);
            e.to_string()
        })
    })
}

fn plain(text: &str, t: &Ty) -> Result<DynVal, String> {
    set_type(t.clone());
    serde_json::from_str::<Dyn>(text).map(|d| d.0).map_err(|e| e.to_string())
}

fn resolves(j: &J, t: &Ty) -> Result<u64, Viol> {
    let full = to_text(j);
    let u = unborrow(t);
    let want = plain(&full, &u);
    let wantv: Value = serde_json::from_str(&full).unwrap();
    for (text, att) in numberings(j) {
        for ack in [false, true] {
            step();
            let m = if ack {
                format!("6{}-7[{}]", att.len(), text)
            } else {
                format!("5{}-[\"e\",1,{}]", att.len(), text)
            };
            let key = || format!("read:{}:{:?}", short(&m), t).replace(char::is_whitespace, "");
            let bad = |e: String| Viol {
                key: key(),
                msg: format!("packet {:?} with {} attachments, argument as {:?}: {}", short(&m), att.len(), t, e),
            };
            let p = decode(&m, &att).map_err(&bad)?;
            let args = args_of(&p);
            let a = args.get(if ack { 0 } else { 2 }).ok_or_else(|| bad("argument missing".into()))?;
            match guard(|| a.to_json_value()) {
                Ok(Ok(v)) if v == wantv => {}
                o => return Err(bad(format!("dynamic access gives {}", short(&format!("{:?}", o))))),
            }
            let got = read(&a, t).map_err(&bad)?;
            match (&got, &want) {
                (Ok(g), Ok(w)) if g.clone().norm() == w.clone().norm() => {}
                (Err(_), Err(_)) => {}
                _ => {
                    return Err(bad(format!(
                        "typed access gives {}, the resolved text {}",
                        short(&format!("{:?}", got)),
                        short(&format!("{:?}", want))
                    )))
                }
            }
            // whole packet printable
            let printed = guard(|| format!("{} {} {:?}", p, args, a)).map_err(&bad)?;
            let _ = printed;
        }
    }
    Ok(digest(&format!("{}{:?}", full, t)))
}

fn out_of_range(j: &J, t: &Ty, skips: bool) -> Result<(), Viol> {
    let l = leaves_of(j);
    let n = l.len();
    let nums = [
        n.to_string(),
        (n + 1).to_string(),
        (1u64 << 32).to_string(),
        (1u64 << 63).to_string(),
        u64::MAX.to_string(),
        "18446744073709551616".into(),
        "-1".into(),
        "-18446744073709551616".into(),
        "0.5".into(),
        "1e2".into(),
    ];
    for which in 0..n {
        for num in &nums {
            step();
            let mut k = 0;
            let text = to_text(&ph(j, &mut k, &mut |i, _| if i == which { num.clone() } else { i.to_string() }));
            let m = format!("5{}-[\"e\",{}]", n, text);
            let bad = |e: String| Viol {
                key: format!("range:{}:{:?}", short(&m), t).replace(char::is_whitespace, ""),
                msg: format!("packet {:?} with {} attachments, argument as {:?}: {}", short(&m), n, t, e),
            };
            let p = decode(&m, &l).map_err(&bad)?;
            let args = args_of(&p);
            let a = args.get(1).ok_or_else(|| bad("argument missing".into()))?;
            match guard(|| a.to_json_value()) {
                Ok(Err(_)) => {}
                o => return Err(bad(format!("dynamic access gives {}", short(&format!("{:?}", o))))),
            }
            match read(&a, t) {
                Ok(Err(_)) => {}
                Ok(Ok(_)) if skips => {}
                o => return Err(bad(format!("typed access gives {}", short(&format!("{:?}", o))))),
            }
        }
    }
    Ok(())
}

#[derive(Deserialize, Debug, PartialEq)]
#[serde(untagged)]
enum Untagged {
    Num(u64),
    Text(String),
    Data { d: Vec<u8>, x: u8 },
    Raw(Vec<u8>),
    Deep { a: BTreeMap<String, Vec<u8>> },
}
#[derive(Deserialize, Debug, PartialEq)]
struct Flat {
    a: Vec<u8>,
    #[serde(flatten)]
    rest: BTreeMap<String, Value>,
}
#[derive(Deserialize, Debug, PartialEq)]
struct FlatStruct {
    x: u8,
    #[serde(flatten)]
    inner: Inner,
}
#[derive(Deserialize, Debug, PartialEq)]
struct Inner {
    d: Vec<u8>,
    #[serde(default)]
    e: Option<Vec<u8>>,
}
#[derive(Deserialize, Debug, PartialEq)]
#[serde(tag = "t")]
enum Tagged {
    A { d: Vec<u8> },
    B { x: u8 },
}
#[derive(Deserialize, Debug, PartialEq)]
#[serde(tag = "t", content = "c")]
enum Adjacent {
    A(Vec<u8>),
    B { d: Vec<u8> },
    C(u8, Vec<u8>),
    U,
}
#[derive(Deserialize, Debug, PartialEq)]
enum Ext {
    U,
    N(Vec<u8>),
    T(u8, Vec<u8>),
    S { d: Vec<u8>, x: Option<u8> },
}
#[derive(Deserialize, Debug, PartialEq)]
struct Wrap(Vec<u8>);
#[derive(Deserialize, Debug, PartialEq)]
struct Pair(Vec<u8>, u8);
#[derive(Deserialize, Debug, PartialEq)]
#[serde(rename_all = "camelCase", deny_unknown_fields)]
struct Renamed {
    some_data: Vec<u8>,
    #[serde(default)]
    other_thing: u8,
}

type Conc = (&'static str, fn(&Arg, &str) -> Result<(), String>);

macro_rules! conc {
    ($($t:ty),* $(,)?) => {
        vec![$({
            fn f(a: &Arg, text: &str) -> Result<(), String> {
                let want: Result<$t, String> = serde_json::from_str::<$t>(text).map_err(|e| e.to_string());
                let got: Result<$t, String> = guard(|| a.deserialize::<$t>().map_err(|e| e.to_string()))?;
                let same = match (&got, &want) {
                    (Ok(g), Ok(w)) => format!("{:?}", g) == format!("{:?}", w),
                    (Err(_), Err(_)) => true,
                    _ => false,
                };
                if same { Ok(()) } else { Err(format!("reads as {:?}, plain JSON as {:?}", got, want)) }
            }
            (stringify!($t), f as fn(&Arg, &str) -> Result<(), String>)
        }),*]
    };
}

fn byte_types() -> Vec<Conc> {
    conc![
        Vec<u8>,
        Option<Vec<u8>>,
        Option<Option<Vec<u8>>>,
        Box<[u8]>,
        [u8; 2],
        (u8, u8),
        Vec<u16>,
        std::collections::VecDeque<u8>,
        std::collections::BTreeSet<u8>,
        Value,
        Vec<Vec<u8>>,
        BTreeMap<String, Vec<u8>>,
        BTreeMap<u8, Vec<u8>>,
        BTreeMap<String, Value>,
        Untagged,
        Flat,
        FlatStruct,
        Tagged,
        Adjacent,
        Ext,
        Wrap,
        Pair,
        Renamed,
        Inner,
        Option<Ext>,
        Vec<Option<Vec<u8>>>,
        (Vec<u8>, Vec<u8>),
        Result<Vec<u8>, String>,
        Wrap2,
    ]
}
#[derive(Deserialize, Debug, PartialEq)]
struct Wrap2(Wrap);

fn concrete_shapes(d: J) -> Vec<J> {
    let o = |v: Vec<(&str, J)>| J::Obj(v.into_iter().map(|(k, v)| (k.to_string(), v)).collect());
    let st = |s: &str| J::Str(s.into());
    let n = |s: &str| J::Num(s.into());
    vec![
        d.clone(),
        J::Arr(vec![d.clone()]),
        J::Arr(vec![d.clone(), n("3")]),
        J::Arr(vec![d.clone(), d.clone()]),
        J::Arr(vec![d.clone(), J::Null]),
        o(vec![("d", d.clone()), ("x", n("1"))]),
        o(vec![("x", n("1")), ("d", d.clone())]),
        o(vec![("x", n("1")), ("d", d.clone()), ("e", d.clone())]),
        o(vec![("a", d.clone()), ("b", n("2")), ("c", d.clone())]),
        o(vec![("a", o(vec![("k", d.clone())]))]),
        o(vec![("t", st("A")), ("d", d.clone())]),
        o(vec![("d", d.clone()), ("t", st("A"))]),
        o(vec![("t", st("A")), ("c", d.clone())]),
        o(vec![("c", d.clone()), ("t", st("A"))]),
        o(vec![("t", st("B")), ("c", o(vec![("d", d.clone())]))]),
        o(vec![("c", o(vec![("d", d.clone())])), ("t", st("B"))]),
        o(vec![("t", st("C")), ("c", J::Arr(vec![n("1"), d.clone()]))]),
        o(vec![("N", d.clone())]),
        o(vec![("T", J::Arr(vec![n("1"), d.clone()]))]),
        o(vec![("S", o(vec![("d", d.clone()), ("x", J::Null)]))]),
        o(vec![("someData", d.clone())]),
        o(vec![("otherThing", n("3")), ("someData", d.clone())]),
        o(vec![("1", d.clone()), ("2", d.clone())]),
        o(vec![("Ok", d.clone())]),
    ]
}

pub fn c06(tier: Tier) -> Vec<Scenario> {
    let mut v = vec![
        scenario("placeholder read as every type", 0, || {
            let (j, t) = leaf();
            log_line(|| format!("{:?} as {:?}", j, t));
            resolves(&j, &t)
        }),
        scenario("one level of nesting", 0, || {
            let l = leaf();
            let (j, t) = path(choose(PATHS), l);
            log_line(|| format!("{:?} as {:?}", j, t));
            resolves(&j, &t)
        }),
        scenario("two levels of nesting", 0, || {
            let k = choose(PATHS);
            let l = choose(PATHS);
            log_line(|| format!("paths {} {}", k, l));
            for b in [vec![], vec![7u8, 4]] {
                for t in [Ty::Bytes, Ty::BorrowedBytes, Ty::Seq(bx(Ty::U8)), Ty::Any, Ty::Tuple(vec![Ty::U8; b.len()])] {
                    let (j, t) = path(k, path(l, (J::Bytes(b.clone()), t)));
                    resolves(&j, &t)?;
                }
            }
            Ok((k * PATHS + l) as u64)
        }),
        scenario("numbers outside the attachments", 0, || {
            let k = choose(PATHS + 1);
            let l = choose(PATHS + 1);
            for t in [Ty::Bytes, Ty::BorrowedBytes, Ty::Seq(bx(Ty::U8)), Ty::Any] {
                let mut p = (J::Bytes(vec![7u8, 4]), t);
                let mut skips = false;
                for x in [l, k] {
                    if x < PATHS {
                        skips |= x == 12;
                        p = path(x, p);
                    }
                }
                out_of_range(&p.0, &p.1, skips)?;
            }
            log_line(|| format!("paths {} {}", k, l));
            Ok((k * 100 + l) as u64)
        }),
        scenario("derived and standard types", 0, || {
            let b = pick(&[vec![], vec![4u8], vec![1, 2], vec![200, 255, 0]]);
            let sh = concrete_shapes(J::Bytes(b));
            let j = pick(&sh);
            let full = to_text(&j);
            for (text, att) in numberings(&j) {
                let m = format!("5{}-[\"e\",{}]", att.len(), text);
                let p = decode(&m, &att).map_err(|e| viol(format!("read:{}", m), e))?;
                let args = args_of(&p);
                let a = args.get(1).unwrap();
                for (name, f) in byte_types() {
                    // a variant name read from a byte is taken as an index by serde itself
                    if matches!(j, J::Bytes(_)) && (name == "Tagged" || name == "Adjacent") {
                        continue;
                    }
                    step();
                    f(&a, &full).map_err(|e| {
                        viol(
                            format!("read:{}:{}", m, name).replace(char::is_whitespace, ""),
                            format!("packet {:?}, argument as {}: {}", m, name, e),
                        )
                    })?;
                }
            }
            log_line(|| full.clone());
            Ok(digest(&full))
        }),
        scenario("malformed placeholders never panic", 0, || {
            let forms = [
                "{\"_placeholder\":true}",
                "{\"_placeholder\":true,\"num\":null}",
                "{\"_placeholder\":true,\"num\":\"0\"}",
                "{\"_placeholder\":true,\"num\":[0]}",
                "{\"_placeholder\":true,\"num\":{}}",
                "{\"_placeholder\":1,\"num\":0}",
                "{\"_placeholder\":{\"_placeholder\":true,\"num\":0},\"num\":0}",
                "{\"_placeholder\":true,\"num\":{\"_placeholder\":true,\"num\":0}}",
                "{\"_placeholder\":true,\"x\":0}",
                "{\"_placeholder\":true,\"num\":0,\"x\":{}}",
                "{\"_placeholder\":null}",
                "{\"num\":0,\"_placeholder\":true}",
                "{\"x\":0,\"_placeholder\":true}",
                "{\"_placeholder\":true,\"_placeholder\":true}",
                "{\"\\u005fplaceholder\":true,\"num\":0}",
                "{\"_placeholder\":true,\"num\":1e400}",
            ];
            let f = pick(&forms);
            let wrap = choose(4);
            let text = match wrap {
                0 => f.to_string(),
                1 => format!("[{}]", f),
                2 => format!("{{\"k\":{}}}", f),
                _ => format!("{{\"V\":{}}}", f),
            };
            let m = format!("51-[\"e\",{}]", text);
            log_line(|| m.clone());
            let p = decode(&m, &[vec![1, 2]]).map_err(|e| viol(format!("decode:{}", m), e))?;
            let args = args_of(&p);
            let a = args.get(1).unwrap();
            let key = format!("malformed:{}", m);
            guard(|| a.to_json_value().is_ok()).map_err(|e| viol(&key[..], format!("{}: {}", m, e)))?;
            for t in c07_types(1) {
                step();
                let _ = read(&a, &t).map_err(|e| viol(&key[..], format!("{} as {:?}: {}", m, t, e)))?;
            }
            for (name, f) in byte_types() {
                step();
                match f(&a, &text) {
                    Err(e) if e.starts_with("panic") => return Err(viol(&key[..], format!("{} as {}: {}", m, name, e))),
                    _ => {}
                }
            }
            Ok(digest(&m))
        }),
        scenario("many attachments", 0, || {
            let n = pick(&[9usize, 10, 11, 99, 100, 101, 300]);
            let leafs: Vec<J> = (0..n).map(|i| J::Bytes(vec![(i % 256) as u8, (i / 256) as u8])).collect();
            let j = J::Arr(leafs);
            let t = pick(&[Ty::Seq(bx(Ty::Bytes)), Ty::Seq(bx(Ty::BorrowedBytes)), Ty::Any, Ty::Seq(bx(Ty::Tuple(vec![Ty::U8, Ty::U8])))]);
            resolves(&j, &t)
        }),
    ];
    v.push(scenario("attachments of every size", 0, move || {
        let mut sizes = vec![255usize, 256, 257, 1023, 1024, 1025, 4095, 4096, 4097, 16_384, 65_535, 65_536, 65_537];
        sizes.extend(tier.pick(&[][..], &[32_767, 32_768, 70_000, 131_072, 200_000, 300_000]));
        let n = pick(&sizes);
        let b: Vec<u8> = match choose(4) {
            0 => (0..n).map(|i| (i * 7 + i / 256) as u8).collect(),
            1 => vec![0; n],
            2 => vec![255; n],
            _ => vec![b'4'; n],
        };
        let k = if n > 10_000 && tier == Tier::Quick { pick(&[PATHS, 9]) } else { pick(&[PATHS, 2, 6, 9, 13, 16]) };
        log_line(|| format!("{} bytes from {:?}, path {}", n, &b[..2], k));
        for t in [Ty::Bytes, Ty::BorrowedBytes, Ty::OnlyBytes(true), Ty::OnlyBytes(false), Ty::Seq(bx(Ty::U8)), Ty::Any] {
            let p = (J::Bytes(b.clone()), t);
            let (j, t) = if k < PATHS { path(k, p) } else { p };
            resolves(&j, &t)?;
        }
        Ok((n * 10 + k) as u64)
    }));
    v.push(scenario("attachments of every content", 0, || {
        let mut all: Vec<Vec<u8>> = (0..=255u8).flat_map(|c| [vec![c], vec![c, 0], vec![0, c], vec![b'x', c]]).collect();
        for w in [
            "null", "true", "0", "\"x\"", "[]", "[1]", "{}", "{\"a\":1}", "{\"_placeholder\":true,\"num\":0}", "\u{feff}", "é", "text", "4text", "b4AQ==", "AQID",
        ] {
            all.push(w.as_bytes().to_vec());
        }
        let all = all.chunks(16).map(|c| c.to_vec()).collect::<Vec<_>>();
        for b in pick(&all) {
            log_line(|| format!("{:?}", b));
            for t in [Ty::Bytes, Ty::BorrowedBytes, Ty::OnlyBytes(true), Ty::OnlyBytes(false), Ty::Seq(bx(Ty::U8)), Ty::Any, Ty::Tuple(vec![Ty::U8; b.len()])] {
                for k in [PATHS, 2, 6, 9, 16] {
                    let p = (J::Bytes(b.clone()), t.clone());
                    let (j, t) = if k < PATHS { path(k, p) } else { p };
                    resolves(&j, &t)?;
                }
            }
        }
        Ok(0)
    }));
    v.push(scenario("attachments read as text", 0, || {
        let b: Vec<u8> = pick(&[
            vec![],
            b"a".to_vec(),
            b"text".to_vec(),
            "é€𝄞".as_bytes().to_vec(),
            b"\"\\ \n\0".to_vec(),
            vec![0x80],
            vec![b'a', 0xff],
            vec![0xed, 0xa0, 0x80],
            vec![0xc3],
        ]);
        let text = pick(&["{}", "[{}]", "{\"k\":{}}", "[1,{}]", "{\"a\":null,\"k\":{}}"]);
        let m = format!("52-[\"e\",{}]", text.replace("{}", "{\"_placeholder\":true,\"num\":1}"));
        log_line(|| format!("{} {:?}", m, b));
        let p = decode(&m, &[b"no".to_vec(), b.clone()]).map_err(|e| viol(format!("decode:{}", m), e))?;
        let args = args_of(&p);
        let a = args.get(1).unwrap();
        let want = std::str::from_utf8(&b).ok();
        let fail = |t: &str, got: &dyn std::fmt::Debug| {
            viol(format!("text:{}:{}:{:?}", m, t, b).replace(' ', ""), format!("{} with {:?} as {}: {:?}", m, b, t, got))
        };
        macro_rules! text_as {
            ($t:ty, $whole:ty, $get:expr) => {{
                step();
                let got = guard(|| a.deserialize::<$whole>().map_err(|e| e.to_string())).map_err(|e| fail(stringify!($t), &e))?;
                let got = got.ok().map($get).map(|x| x.to_string());
                if got.as_deref() != want {
                    return Err(fail(stringify!($t), &got));
                }
            }};
        }
        type M<T> = BTreeMap<String, T>;
        type K<T> = BTreeMap<String, Option<T>>;
        macro_rules! shapes {
            ($t:ty) => {
                match text {
                    "{}" => text_as!($t, $t, |x| x),
                    "[{}]" => text_as!($t, Vec<$t>, |mut x| x.remove(0)),
                    "[1,{}]" => text_as!($t, (u8, $t), |x| x.1),
                    "{\"k\":{}}" => text_as!($t, M<$t>, |mut x| x.remove("k").unwrap()),
                    _ => text_as!($t, K<$t>, |mut x| x.remove("k").unwrap().unwrap()),
                }
            };
        }
        shapes!(String);
        shapes!(&str);
        shapes!(Box<str>);
        shapes!(std::borrow::Cow<'_, str>);
        Ok(digest(&format!("{}{:?}", m, b)))
    }));
    v.push(scenario("very many attachments", 0, move || {
        let n = pick(tier.pick(&[999usize, 1_000, 4_096, 10_000][..], &[999usize, 1_000, 1_001, 4_096, 9_999, 10_000, 65_536, 65_537]));
        let j = J::Arr((0..n).map(|i| J::Bytes(vec![(i % 256) as u8, (i / 256) as u8, (i / 65_536) as u8])).collect());
        let t = pick(&[Ty::Seq(bx(Ty::Bytes)), Ty::Any]);
        resolves(&j, &t)
    }));
    if tier == Tier::Thorough {
        v.push(scenario("three levels of nesting", 0, || {
            let k = choose(PATHS);
            let l = choose(PATHS);
            let m = choose(PATHS);
            for t in [Ty::Bytes, Ty::BorrowedBytes, Ty::Seq(bx(Ty::U8)), Ty::Any] {
                let (j, t) = path(k, path(l, path(m, (J::Bytes(vec![7, 4]), t))));
                resolves(&j, &t)?;
            }
            Ok((k * 10000 + l * 100 + m) as u64)
        }));
    }
    v
}

// ---------------------------------------------------------------- C07

fn scalars() -> Vec<&'static str> {
    vec![
        "null",
        "true",
        "false",
        "0",
        "1",
        "-1",
        "255",
        "256",
        "-129",
        "65536",
        "18446744073709551615",
        "18446744073709551616",
        "-9223372036854775809",
        "170141183460469231731687303715884105728",
        "1.5",
        "1.0",
        "-0",
        "0.1",
        "1e3",
        "1e400",
        "\"\"",
        "\"a\"",
        "\"U\"",
        "\"1\"",
        "\"true\"",
        "\"é漢𝄞\"",
        "\"\\u0041\\n\\\"\"",
        "\"_placeholder\"",
        "[]",
        "{}",
    ]
}

fn keys() -> Vec<&'static str> {
    vec![
        "a", "f", "g", "1", "-1", "300", "true", "false", "1.5", "é", "", "num", "_placeholde", "_placeholder2", "U", "V", "T", "S", "null", "x y",
    ]
}
/// Keys written with escapes.
fn raw_keys() -> Vec<String> {
    let mut v: Vec<String> = keys().iter().map(|k| quote(k)).collect();
    v.extend(
        ["\"\\u0061\"", "\"\\u0066\"", "\"\\u0031\"", "\"q\\\"\\n\"", "\"\\u005fx\"", "\"tru\\u0065\"", "\"\\u0056\""]
            .iter()
            .map(|s| s.to_string()),
    );
    v
}

pub fn texts1() -> Vec<String> {
    let s = scalars();
    let mut v: Vec<String> = s.iter().map(|x| x.to_string()).collect();
    for x in &s {
        v.push(format!("[{}]", x));
        v.push(format!("[1,{}]", x));
        v.push(format!("[{},\"a\"]", x));
    }
    for k in raw_keys() {
        for x in ["1", "\"a\"", "null", "[1,2]", "{\"a\":1,\"b\":2}", "{}", "[]", "{\"g\":3}"] {
            v.push(format!("{{{}:{}}}", k, x));
            v.push(format!("{{{}:{},\"b\":1}}", k, x));
            v.push(format!("{{\"b\":1,{}:{}}}", k, x));
        }
    }
    for (a, b) in [("a", "b"), ("1", "2"), ("f", "g"), ("g", "f"), ("true", "false"), ("f", "f"), ("U", "V"), ("é", "漢")] {
        for x in ["1", "\"a\"", "null", "[1]"] {
            for y in ["2", "\"\"", "{\"k\":[]}"] {
                v.push(format!("{{ \"{}\" : {} , \"{}\" : {} }}", a, x, b, y));
            }
        }
    }
    v
}

pub fn texts2() -> Vec<String> {
    let inner = [
        "1", "\"a\"", "null", "[]", "{}", "[1,2]", "{\"a\":1}", "{\"1\":2,\"2\":3}", "{\"f\":1,\"g\":2}", "{\"V\":1}", "\"U\"", "{\"T\":[1,2]}", "{\"S\":{\"f\":1}}",
        "{\"\\u0066\":1}", "{\"true\":1}", "[\"a\",{\"1\":1}]",
    ];
    let mut v = Vec::new();
    for x in inner {
        v.push(format!("[{}]", x));
        v.push(format!("[{},{}]", x, x));
        for k in ["a", "f", "1", "V", "T", "S", "true", "\\u0061"] {
            v.push(format!("{{\"{}\":{}}}", k, x));
            v.push(format!("{{\"{}\":[{}]}}", k, x));
            v.push(format!("[{{\"{}\":{}}}]", k, x));
            v.push(format!("{{\"{}\":{},\"g\":{}}}", k, x, x));
            v.push(format!("{{\"o\":{{\"{}\":{}}}}}", k, x));
        }
    }
    v.push(format!("{}1{}", "[".repeat(60), "]".repeat(60)));
    v.push(format!("{}1{}", "{\"f\":".repeat(60), "}".repeat(60)));
    v
}

fn base_types() -> Vec<Ty> {
    vec![
        Ty::Bool,
        Ty::I8,
        Ty::I16,
        Ty::I64,
        Ty::U8,
        Ty::U16,
        Ty::U32,
        Ty::U64,
        Ty::I128,
        Ty::U128,
        Ty::F32,
        Ty::F64,
        Ty::Char,
        Ty::Str,
        Ty::BorrowedStr,
        Ty::CowStr,
        Ty::Bytes,
        Ty::OnlyBytes(true),
        Ty::OnlyBytes(false),
        Ty::Human,
        Ty::BorrowedBytes,
        Ty::Unit,
        Ty::UnitStruct,
        Ty::Any,
        Ty::Ignored,
    ]
}

fn wrap_types(base: &[Ty], keys: &[Ty]) -> Vec<Ty> {
    let mut v = Vec::new();
    for t in base {
        let b = || bx(t.clone());
        v.push(Ty::Opt(b()));
        v.push(Ty::Newtype(b()));
        v.push(Ty::Seq(b()));
        v.push(Ty::Tuple(vec![t.clone()]));
        v.push(Ty::Tuple(vec![Ty::U8, t.clone()]));
        v.push(Ty::TupleStruct(vec![t.clone(), Ty::Str]));
        v.push(Ty::Struct(fields(vec![("f", t.clone())]), true));
        v.push(Ty::Struct(fields(vec![("f", t.clone()), ("g", Ty::Opt(bx(Ty::Any)))]), false));
        v.push(Ty::Struct(fields(vec![("é", Ty::Opt(b())), ("", Ty::Opt(b())), ("a", Ty::Opt(b()))]), false));
        v.push(Ty::Enum(variants(vec![
            ("U", VTy::Unit),
            ("V", VTy::Newtype(t.clone())),
            ("T", VTy::Tuple(vec![t.clone(), Ty::U8])),
            ("S", VTy::Struct(fields(vec![("f", t.clone()), ("g", Ty::Opt(bx(Ty::U8)))]))),
        ])));
        for k in keys {
            v.push(Ty::Map(bx(k.clone()), b()));
        }
    }
    v
}

fn key_types() -> Vec<Ty> {
    vec![
        Ty::Str,
        Ty::BorrowedStr,
        Ty::CowStr,
        Ty::U8,
        Ty::I64,
        Ty::I128,
        Ty::U128,
        Ty::F64,
        Ty::Bool,
        Ty::Char,
        Ty::Bytes,
        Ty::OnlyBytes(true),
        Ty::OnlyBytes(false),
        Ty::Human,
        Ty::BorrowedBytes,
        Ty::Any,
        Ty::Ignored,
        Ty::Opt(bx(Ty::Str)),
        Ty::Opt(bx(Ty::U8)),
        Ty::Newtype(bx(Ty::Str)),
        Ty::Newtype(bx(Ty::U16)),
        Ty::Newtype(bx(Ty::Opt(bx(Ty::Bool)))),
        Ty::Enum(variants(vec![("U", VTy::Unit), ("V", VTy::Unit), ("a", VTy::Unit)])),
        Ty::Unit,
        Ty::Seq(bx(Ty::U8)),
    ]
}

/// Target types: level 1 (scalars and one wrapping) or level 2.
pub fn c07_types(level: usize) -> Vec<Ty> {
    static C: Mutex<Vec<Option<Vec<Ty>>>> = Mutex::new(Vec::new());
    let mut c = C.lock().unwrap();
    c.resize(3, None);
    if let Some(v) = &c[level] {
        return v.clone();
    }
    let r = if level == 1 {
        let mut v = base_types();
        v.extend(wrap_types(&base_types(), &[Ty::Str]));
        v.extend(wrap_types(&[Ty::U8, Ty::Any, Ty::Str], &key_types()));
        v
    } else {
        let inner = wrap_types(&[Ty::U8, Ty::Str, Ty::Any, Ty::Ignored], &[Ty::Str, Ty::U8, Ty::Bool]);
        let mut v = wrap_types(&inner, &[Ty::Str, Ty::Newtype(bx(Ty::U8))]);
        v.extend(base_types());
        v
    };
    c[level] = Some(r.clone());
    r
}

fn plain_types() -> Vec<Conc> {
    let mut v = byte_types();
    v.extend(conc![
        String,
        Box<str>,
        char,
        bool,
        u8,
        i64,
        u128,
        f32,
        f64,
        (),
        (u8,),
        (String, u8),
        Option<Option<u8>>,
        Vec<String>,
        Vec<Value>,
        BTreeMap<String, u8>,
        BTreeMap<u8, Value>,
        BTreeMap<i64, Value>,
        BTreeMap<bool, Value>,
        BTreeMap<char, Value>,
        BTreeMap<Option<String>, Value>,
        BTreeMap<KeyEnum, Value>,
        BTreeMap<KeyNew, Value>,
        serde_json::Map<String, Value>,
        Box<RawValue>,
        Vec<Box<RawValue>>,
        BTreeMap<String, Box<RawValue>>,
        serde::de::IgnoredAny,
        std::time::Duration,
        std::num::Wrapping<u8>,
        std::num::NonZeroU8,
        std::net::IpAddr,
        std::path::PathBuf,
        Result<u8, String>,
        std::ops::Range<u8>,
        KeyEnum,
        Vec<KeyEnum>,
        PlainStruct,
        Option<PlainStruct>,
        Vec<PlainStruct>,
        PlainUntagged,
        PlainTagged,
        PlainFlat,
        serde_json::Number,
    ]);
    v
}
#[derive(Deserialize, Debug, PartialEq, PartialOrd, Eq, Ord)]
enum KeyEnum {
    U,
    V,
    #[serde(rename = "é")]
    E,
    #[serde(rename = "a", alias = "f")]
    A,
}
#[derive(Deserialize, Debug, PartialEq, PartialOrd, Eq, Ord)]
struct KeyNew(u8);
#[derive(Deserialize, Debug, PartialEq)]
struct PlainStruct {
    #[serde(alias = "a", default)]
    f: Option<Value>,
    #[serde(default)]
    g: u8,
}
#[derive(Deserialize, Debug, PartialEq)]
#[serde(untagged)]
enum PlainUntagged {
    B(bool),
    N(i64),
    F(f64),
    S(String),
    M(BTreeMap<u8, u8>),
    P { f: u8 },
    L(Vec<Value>),
    V(Value),
}
#[derive(Deserialize, Debug, PartialEq)]
#[serde(tag = "a")]
enum PlainTagged {
    #[serde(rename = "a")]
    A { b: u8 },
    U,
}
#[derive(Deserialize, Debug, PartialEq)]
struct PlainFlat {
    #[serde(flatten)]
    k: BTreeMap<String, Value>,
}

fn unaffected(text: &str, level: usize) -> Result<u64, Viol> {
    unaffected_by(text, &c07_types(level))
}

fn unaffected_by(text: &str, types: &[Ty]) -> Result<u64, Viol> {
    // the same argument with no attachment, with an unrelated attachment, and beside a placeholder
    let cases = [
        (format!("2[\"e\",{}]", text), vec![], 1),
        (format!("51-[\"e\",{}]", text), vec![vec![1u8, 2]], 1),
        (format!("62-9[{{\"_placeholder\":true,\"num\":1}},{}]", text), vec![vec![1u8, 2], vec![3]], 1),
    ];
    // serde_json itself misreads a non-ASCII key as a bool
    let skip = !text.is_ascii();
    for (i, (m, att, k)) in cases.iter().enumerate() {
        let p = decode(m, att).map_err(|e| viol(format!("decode:{}", m), format!("{}: {}", m, e)))?;
        let args = args_of(&p);
        let a = args.get(*k).unwrap();
        let key = |t: String| format!("read:{}:{}", short(m), t).replace(char::is_whitespace, "");
        let bad = |t: String, e: String| Err(viol(key(t.clone()), format!("packet {:?}, argument {} as {}: {}", short(m), k, t, e)));
        step();
        match (guard(|| a.to_json_value().map_err(|e| e.to_string())), serde_json::from_str::<Value>(text)) {
            (Ok(Ok(g)), Ok(w)) if g == w => {}
            (Ok(Err(_)), Err(_)) => {}
            (g, w) => return bad("Value".into(), format!("dynamic access gives {:?}, plain JSON {:?}", g, w)),
        }
        for t in types {
            if skip && format!("{:?}", t).contains("Map(Bool") || skip && format!("{:?}", t).contains("Opt(Bool") {
                continue;
            }
            step();
            let got = match read(&a, t) {
                Ok(g) => g,
                Err(p) => return bad(format!("{:?}", t), p),
            };
            let want = plain(text, t);
            let same = match (&got, &want) {
                (Ok(g), Ok(w)) => g == w,
                (Err(_), Err(_)) => true,
                _ => false,
            };
            if !same {
                return bad(
                    format!("{:?}", t),
                    format!("gives {}, plain JSON {}", short(&format!("{:?}", got)), short(&format!("{:?}", want))),
                );
            }
        }
        if i > 0 {
            for (name, f) in plain_types() {
                if skip && name.contains("<bool") {
                    continue;
                }
                step();
                if let Err(e) = f(&a, text) {
                    return bad(name.to_string(), e);
                }
            }
        }
    }
    Ok(digest(text))
}

pub fn c07(tier: Tier) -> Vec<Scenario> {
    let deep = tier.pick(1, 2);
    vec![
        scenario("values of one level against every type", 0, || {
            let t = texts1();
            let t = pick(&t);
            log_line(|| format!("{} against every type", t));
            unaffected(&t, 1)
        }),
        scenario("nested values against nested types", 0, || {
            let t = texts2();
            let t = pick(&t);
            log_line(|| format!("{} against every nested type", t));
            unaffected(&t, 2)
        }),
        scenario("nested values against every type", 0, move || {
            let t = if deep == 2 {
                let mut t = texts2();
                t.extend(texts1());
                pick(&t)
            } else {
                let t = texts2();
                pick(&t)
            };
            log_line(|| t.clone());
            unaffected(&t, deep)
        }),
        scenario("numbers of every size", 0, || {
            let mut n: Vec<String> = Vec::new();
            for e in edges() {
                n.extend([format!("{}", e), format!("-{}", e), format!("{}.0", e), format!("{}.25", e), format!("{}e-1", e), format!("-{}E+2", e)]);
            }
            n.extend((0..40).map(|k| format!("1{}", "0".repeat(k))));
            n.extend((0..40).map(|k| format!("0.{}1", "0".repeat(k))));
            n.extend((0..340).step_by(20).flat_map(|k| [format!("1e{}", k), format!("1e-{}", k), format!("-1.7976931348623157E{}", k)]));
            let n = n.chunks(20).map(|c| c.to_vec()).collect::<Vec<_>>();
            let n = pick(&n);
            log_line(|| format!("{:?}", n));
            for x in &n {
                unaffected_by(x, &few_types())?;
            }
            Ok(digest(&n.concat()))
        }),
        scenario("strings and keys of every form", 0, || {
            let w = words().chunks(20).collect::<Vec<_>>();
            let w = pick(&w);
            log_line(|| format!("{:?}", w.iter().map(|x| short(x)).collect::<Vec<_>>()));
            for x in w {
                if *x == "_placeholder" {
                    continue;
                }
                let q = quote(x);
                unaffected_by(&q, &few_types())?;
                unaffected_by(&format!("{{{}:1}}", q), &few_types())?;
                unaffected_by(&format!("{{\"a\":{},\"g\":2}}", q), &few_types())?;
                unaffected_by(&format!("[{},{}]", q, q), &few_types())?;
            }
            Ok(digest(&w.concat()))
        }),
        scenario("wide and deep values", 0, || {
            let n = pick(&[2usize, 15, 16, 17, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1_000, 4_096, 70_000]);
            let k = choose(9);
            let j = |f: &dyn Fn(usize) -> String| (0..n).map(f).collect::<Vec<_>>().join(",");
            let text = match k {
                0 => format!("[{}]", j(&|i| (i % 256).to_string())),
                1 => format!("[{}]", j(&|i| quote(&format!("s{}", i)))),
                2 => format!("{{{}}}", j(&|i| format!("\"{}\":{}", i, i % 256))),
                3 => format!("{{{}}}", j(&|i| format!("\"k{}\":[{}]", i, i))),
                4 => format!("{{\"f\":{},\"g\":1}}", quote(&"é".repeat(n))),
                5 => format!("[{}]", j(&|_| "{\"f\":1}".into())),
                6 if n <= 120 => format!("{}1{}", "[".repeat(n), "]".repeat(n)),
                7 if n <= 120 => format!("{}1{}", "{\"f\":".repeat(n), "}".repeat(n)),
                8 => format!("[{}1{}]", " ".repeat(n), "\n".repeat(n)),
                _ => return Ok(0),
            };
            log_line(|| short(&text));
            unaffected_by(&text, &few_types())
        }),
    ]
}

/// A type of every kind.
fn few_types() -> Vec<Ty> {
    let mut v = base_types();
    v.extend([
        Ty::Seq(bx(Ty::U8)),
        Ty::Seq(bx(Ty::Str)),
        Ty::Seq(bx(Ty::Any)),
        Ty::Opt(bx(Ty::F64)),
        Ty::Newtype(bx(Ty::CowStr)),
        Ty::Tuple(vec![Ty::Str, Ty::BorrowedStr]),
        Ty::Map(bx(Ty::Str), bx(Ty::Any)),
        Ty::Map(bx(Ty::U64), bx(Ty::U8)),
        Ty::Map(bx(Ty::CowStr), bx(Ty::Ignored)),
        Ty::Struct(fields(vec![("a", Ty::Any), ("g", Ty::Opt(bx(Ty::U8)))]), false),
        Ty::Struct(fields(vec![("f", Ty::CowStr)]), true),
        Ty::Enum(variants(vec![("x", VTy::Unit), ("a", VTy::Newtype(Ty::Any))])),
    ]);
    v
}
