//! Reference model of a client session: what a server's messages must lead to.
use std::collections::BTreeMap;

use crate::reference::{parse_json, parse_packet, resolve, to_text, Kind, Parsed, RefPacket, J};
use crate::world::frame;

/// A WebSocket message from the server.
#[derive(Clone, Debug, PartialEq)]
pub enum Fr {
    T(String),
    B(Vec<u8>),
    /// WebSocket-level ping, invisible to the session.
    WsPing,
    WsPong,
}

pub fn t(s: &str) -> Fr {
    Fr::T(s.to_string())
}
/// An attachment.
pub fn a(b: &[u8]) -> Fr {
    let mut v = vec![4];
    v.extend_from_slice(b);
    Fr::B(v)
}

impl Fr {
    pub fn bytes(&self) -> Vec<u8> {
        match self {
            Fr::T(s) => frame(1, s.as_bytes()),
            Fr::B(b) => frame(2, b),
            // the longest payload a control frame can have
            Fr::WsPing => frame(9, &[b'h'; 125]),
            Fr::WsPong => frame(10, &[b'p'; 125]),
        }
    }
    /// The same message in two fragments with a control frame in between.
    pub fn fragmented(&self) -> Vec<u8> {
        let (op, p): (u8, &[u8]) = match self {
            Fr::T(s) => (1, s.as_bytes()),
            Fr::B(b) => (2, b),
            _ => return self.bytes(),
        };
        let h = p.len() / 2;
        let mut v = crate::world::frame_raw(op, &p[..h]);
        v.extend(frame(9, b"x"));
        v.extend(crate::world::frame_raw(0x80, &p[h..]));
        v
    }
    pub fn show(&self) -> String {
        match self {
            Fr::T(s) => s.clone(),
            Fr::B(b) => format!("bin{:?}", b),
            Fr::WsPing => "wsping".into(),
            Fr::WsPong => "wspong".into(),
        }
    }
}

#[derive(Clone, Debug)]
pub struct Delivery {
    pub packet: RefPacket,
    pub atts: Vec<Vec<u8>>,
}

#[derive(Clone, Debug)]
pub enum Out {
    Nothing,
    Pong,
    Deliver(Delivery),
    Error,
    /// The protocol leaves it open; the history is not judged any further except for panics.
    Open,
}

/// The session as seen from the client, after the open packet.
#[derive(Clone, Default)]
pub struct Session {
    closed: bool,
    cur: Option<(RefPacket, Vec<Vec<u8>>, bool, u64)>,
}

impl Session {
    pub fn awaiting(&self) -> bool {
        self.cur.is_some()
    }
    /// Is the packet in progress already beyond repair (to be reported when complete, or earlier)?
    pub fn tainted(&self) -> bool {
        matches!(&self.cur, Some((_, _, true, _)))
    }
    pub fn feed(&mut self, f: &Fr) -> Out {
        match f {
            Fr::WsPing | Fr::WsPong => Out::Nothing,
            _ if self.closed => Out::Error,
            Fr::T(s) => match s.as_bytes().first() {
                Some(b'1') if s.len() == 1 => {
                    self.closed = true;
                    Out::Nothing
                }
                Some(b'2') if s.len() == 1 => Out::Pong,
                Some(b'3') if s.len() == 1 => Out::Nothing,
                Some(b'1') | Some(b'2') | Some(b'3') => Out::Open,
                Some(b'4') => {
                    if let Some((_, _, taint, n)) = self.cur.as_mut() {
                        *taint = true;
                        *n -= 1;
                        return self.complete();
                    }
                    match parse_packet(&s[1..]) {
                        Parsed::Open => Out::Open,
                        Parsed::Err => Out::Error,
                        Parsed::Late(n) => {
                            let p = RefPacket {
                                kind: Kind::Event,
                                binary: true,
                                attachments: n,
                                ns: String::new(),
                                id: None,
                                args: Vec::new(),
                            };
                            self.cur = Some((p, Vec::new(), true, n));
                            Out::Nothing
                        }
                        Parsed::Ok(p) => {
                            if p.attachments > 0 {
                                let n = p.attachments;
                                self.cur = Some((p, Vec::new(), false, n));
                                Out::Nothing
                            } else {
                                Out::Deliver(Delivery {
                                    packet: p,
                                    atts: Vec::new(),
                                })
                            }
                        }
                    }
                }
                _ => Out::Error,
            },
            Fr::B(b) => match b.first() {
                Some(4) => match self.cur.as_mut() {
                    None => Out::Error,
                    Some((_, v, _, n)) => {
                        v.push(b[1..].to_vec());
                        *n -= 1;
                        self.complete()
                    }
                },
                _ => Out::Error,
            },
        }
    }
    fn complete(&mut self) -> Out {
        if self.cur.as_ref().unwrap().3 > 0 {
            return Out::Nothing;
        }
        let (packet, atts, taint, _) = self.cur.take().unwrap();
        if taint {
            Out::Error
        } else {
            Out::Deliver(Delivery { packet, atts })
        }
    }
}

impl Delivery {
    /// The event name; `None` if the first argument is not a plain string.
    pub fn event(&self) -> Option<String> {
        match parse_json(self.packet.args.first()?) {
            Some(J::Str(s)) => Some(s),
            _ => None,
        }
    }
    /// The arguments as the recording handlers show them.
    pub fn shown(&self) -> String {
        let v: Vec<String> = self
            .packet
            .args
            .iter()
            .map(|a| match parse_json(a).and_then(|j| if self.atts.is_empty() { Some(j) } else { resolve(&j, &self.atts) }) {
                Some(j) => match serde_json::from_str::<serde_json::Value>(&to_text(&j)) {
                    Ok(v) => v.to_string(),
                    Err(_) => "<error>".into(),
                },
                None => "<error>".into(),
            })
            .collect();
        format!("[{}]", v.join(","))
    }
}

/// The handlers in force, and the acknowledgements outstanding.
#[derive(Clone, Default, Debug)]
pub struct Reg {
    pub ev: BTreeMap<(String, String), String>,
    pub fb: BTreeMap<String, String>,
    pub acks: BTreeMap<(String, u64), String>,
    pub calls: BTreeMap<String, u32>,
}

pub enum Ran {
    Lines(Option<String>),
    Error,
}

impl Reg {
    pub fn lookup(&self, ns: &str, ev: &str) -> Option<&String> {
        self.ev
            .get(&(ns.to_string(), ev.to_string()))
            .or_else(|| self.fb.get(ns))
    }
    /// What the recording handlers show for this packet.
    pub fn dispatch(&mut self, d: &Delivery) -> Ran {
        match d.packet.kind {
            Kind::Connect | Kind::Disconnect => Ran::Lines(None),
            Kind::Event => {
                let ev = match d.event() {
                    Some(e) => e,
                    None => return Ran::Error,
                };
                let h = match self.lookup(&d.packet.ns, &ev) {
                    Some(h) => h.clone(),
                    None => return Ran::Lines(None),
                };
                let n = self.calls.entry(h.clone()).or_insert(0);
                *n += 1;
                Ran::Lines(Some(format!(
                    "{}#{} {}{}",
                    h,
                    n,
                    d.shown(),
                    if d.packet.id.is_some() { " ack" } else { "" }
                )))
            }
            Kind::Ack => match self.acks.remove(&(d.packet.ns.clone(), d.packet.id.unwrap())) {
                Some(h) => Ran::Lines(Some(format!("{} {}", h, d.shown()))),
                None => Ran::Error,
            },
        }
    }
}

/// What a whole stream of messages must lead to.
#[derive(Clone, Debug, Default)]
pub struct Expect {
    pub calls: Vec<String>,
    pub pongs: usize,
    /// The connection must end with an error.
    pub error: bool,
    /// The connection may end with an error or without.
    pub may_error: bool,
    /// Not judged beyond this many calls; whatever follows the open point is ignored.
    pub open: bool,
}

pub fn expect(frames: &[Fr], reg: &Reg) -> Expect {
    let mut reg = reg.clone();
    let mut s = Session::default();
    let mut e = Expect::default();
    for f in frames {
        match s.feed(f) {
            Out::Nothing => {}
            Out::Pong => {
                // A packet beyond repair may be reported early.
                if s.tainted() {
                    e.open = true;
                    return e;
                }
                e.pongs += 1
            }
            Out::Deliver(d) => match reg.dispatch(&d) {
                Ran::Lines(l) => e.calls.extend(l),
                Ran::Error => {
                    e.error = true;
                    return e;
                }
            },
            Out::Error => {
                e.error = true;
                return e;
            }
            Out::Open => {
                e.open = true;
                return e;
            }
        }
    }
    if s.tainted() || s.awaiting() {
        e.may_error = true;
    }
    e
}
