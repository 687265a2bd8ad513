//! Reference models, written from the protocol documents: JSON trees, the Socket.IO packet grammar,
//! placeholders.  Nothing here calls the code under test.

/// A JSON tree; numbers keep their text, `Bytes` stands for a resolved placeholder.
#[derive(Clone, Debug, PartialEq)]
pub enum J {
    Null,
    Bool(bool),
    Num(String),
    Str(String),
    Arr(Vec<J>),
    Obj(Vec<(String, J)>),
    Bytes(Vec<u8>),
}

struct P<'a> {
    s: &'a [u8],
    i: usize,
    depth: usize,
}

pub fn parse_json(t: &str) -> Option<J> {
    let mut p = P {
        s: t.as_bytes(),
        i: 0,
        depth: 0,
    };
    p.ws();
    let v = p.value()?;
    p.ws();
    if p.i == p.s.len() {
        Some(v)
    } else {
        None
    }
}

impl<'a> P<'a> {
    fn ws(&mut self) {
        while self.i < self.s.len() && matches!(self.s[self.i], b' ' | b'\t' | b'\n' | b'\r') {
            self.i += 1
        }
    }
    fn peek(&self) -> Option<u8> {
        self.s.get(self.i).copied()
    }
    fn eat(&mut self, c: u8) -> Option<()> {
        if self.peek() == Some(c) {
            self.i += 1;
            Some(())
        } else {
            None
        }
    }
    fn lit(&mut self, l: &str, v: J) -> Option<J> {
        if self.s[self.i..].starts_with(l.as_bytes()) {
            self.i += l.len();
            Some(v)
        } else {
            None
        }
    }
    fn value(&mut self) -> Option<J> {
        self.depth += 1;
        if self.depth > 3000 {
            return None;
        }
        let r = match self.peek()? {
            b'n' => self.lit("null", J::Null),
            b't' => self.lit("true", J::Bool(true)),
            b'f' => self.lit("false", J::Bool(false)),
            b'"' => self.string().map(J::Str),
            b'[' => {
                self.i += 1;
                let mut v = Vec::new();
                self.ws();
                if self.eat(b']').is_some() {
                    Some(J::Arr(v))
                } else {
                    loop {
                        self.ws();
                        v.push(self.value()?);
                        self.ws();
                        if self.eat(b',').is_some() {
                            continue;
                        }
                        self.eat(b']')?;
                        break Some(J::Arr(v));
                    }
                }
            }
            b'{' => {
                self.i += 1;
                let mut v = Vec::new();
                self.ws();
                if self.eat(b'}').is_some() {
                    Some(J::Obj(v))
                } else {
                    loop {
                        self.ws();
                        let k = self.string()?;
                        self.ws();
                        self.eat(b':')?;
                        self.ws();
                        v.push((k, self.value()?));
                        self.ws();
                        if self.eat(b',').is_some() {
                            continue;
                        }
                        self.eat(b'}')?;
                        break Some(J::Obj(v));
                    }
                }
            }
            b'-' | b'0'..=b'9' => {
                let st = self.i;
                let _ = self.eat(b'-');
                match self.peek()? {
                    b'0' => self.i += 1,
                    b'1'..=b'9' => self.digits()?,
                    _ => return None,
                }
                if self.eat(b'.').is_some() {
                    self.digits()?;
                }
                if matches!(self.peek(), Some(b'e') | Some(b'E')) {
                    self.i += 1;
                    if matches!(self.peek(), Some(b'+') | Some(b'-')) {
                        self.i += 1;
                    }
                    self.digits()?;
                }
                Some(J::Num(String::from_utf8(self.s[st..self.i].to_vec()).ok()?))
            }
            _ => None,
        };
        self.depth -= 1;
        r
    }
    fn digits(&mut self) -> Option<()> {
        let st = self.i;
        while matches!(self.peek(), Some(b'0'..=b'9')) {
            self.i += 1
        }
        if self.i > st {
            Some(())
        } else {
            None
        }
    }
    fn hex4(&mut self) -> Option<u32> {
        let h = std::str::from_utf8(self.s.get(self.i..self.i + 4)?).ok()?;
        if !h.bytes().all(|b| b.is_ascii_hexdigit()) {
            return None;
        }
        self.i += 4;
        u32::from_str_radix(h, 16).ok()
    }
    fn string(&mut self) -> Option<String> {
        self.eat(b'"')?;
        let mut out: Vec<u8> = Vec::new();
        loop {
            let c = self.peek()?;
            self.i += 1;
            match c {
                b'"' => return String::from_utf8(out).ok(),
                b'\\' => {
                    let e = self.peek()?;
                    self.i += 1;
                    let ch = match e {
                        b'"' => '"',
                        b'\\' => '\\',
                        b'/' => '/',
                        b'b' => '\u{8}',
                        b'f' => '\u{c}',
                        b'n' => '\n',
                        b'r' => '\r',
                        b't' => '\t',
                        b'u' => {
                            let a = self.hex4()?;
                            if (0xD800..0xDC00).contains(&a) {
                                self.eat(b'\\')?;
                                self.eat(b'u')?;
                                let b = self.hex4()?;
                                if !(0xDC00..0xE000).contains(&b) {
                                    return None;
                                }
                                char::from_u32(0x10000 + ((a - 0xD800) << 10) + (b - 0xDC00))?
                            } else {
                                char::from_u32(a)?
                            }
                        }
                        _ => return None,
                    };
                    let mut b = [0; 4];
                    out.extend_from_slice(ch.encode_utf8(&mut b).as_bytes());
                }
                0..=0x1f => return None,
                _ => out.push(c),
            }
        }
    }
}

/// Split the text of a JSON array into the texts of its elements (no validation of the elements
/// beyond bracket and string structure).
pub fn split_array(t: &str) -> Vec<String> {
    let b = t.as_bytes();
    let mut out = Vec::new();
    let (mut depth, mut instr, mut esc, mut st) = (0, false, false, 1);
    for (i, &c) in b.iter().enumerate() {
        if instr {
            if esc {
                esc = false
            } else if c == b'\\' {
                esc = true
            } else if c == b'"' {
                instr = false
            }
            continue;
        }
        match c {
            b'"' => instr = true,
            b'[' | b'{' => depth += 1,
            b']' | b'}' => {
                depth -= 1;
                if depth == 0 {
                    let s = t[st..i].trim_matches(|c| matches!(c, ' ' | '\t' | '\n' | '\r'));
                    if !s.is_empty() {
                        out.push(s.to_string())
                    }
                }
            }
            b',' if depth == 1 => {
                out.push(t[st..i].trim_matches(|c| matches!(c, ' ' | '\t' | '\n' | '\r')).to_string());
                st = i + 1;
            }
            _ => {}
        }
    }
    out
}

/// Replace placeholder objects by the attachments they number.  `None` if a number is out of range.
pub fn resolve(j: &J, att: &[Vec<u8>]) -> Option<J> {
    Some(match j {
        J::Arr(v) => J::Arr(v.iter().map(|x| resolve(x, att)).collect::<Option<_>>()?),
        J::Obj(o) => {
            if let Some(n) = placeholder(o) {
                J::Bytes(att.get(usize::try_from(n).ok()?)?.clone())
            } else {
                J::Obj(
                    o.iter()
                        .map(|(k, v)| resolve(v, att).map(|v| (k.clone(), v)))
                        .collect::<Option<_>>()?,
                )
            }
        }
        x => x.clone(),
    })
}

/// Is this object a placeholder of the protocol's form?
pub fn placeholder(o: &[(String, J)]) -> Option<u64> {
    match o {
        [(a, J::Bool(true)), (b, J::Num(n))] if a == "_placeholder" && b == "num" => n.parse().ok(),
        _ => None,
    }
}

/// JSON text with bytes written as arrays of numbers.
pub fn to_text(j: &J) -> String {
    let mut s = String::new();
    write(j, &mut s, &mut None);
    s
}

/// JSON text with bytes written as placeholders, numbering from the current length of `att`.
pub fn to_wire(j: &J, att: &mut Vec<Vec<u8>>) -> String {
    let mut s = String::new();
    write(j, &mut s, &mut Some(att));
    s
}

pub fn quote(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn write(j: &J, s: &mut String, att: &mut Option<&mut Vec<Vec<u8>>>) {
    match j {
        J::Null => s.push_str("null"),
        J::Bool(b) => s.push_str(if *b { "true" } else { "false" }),
        J::Num(n) => s.push_str(n),
        J::Str(t) => s.push_str(&quote(t)),
        J::Arr(v) => {
            s.push('[');
            for (i, x) in v.iter().enumerate() {
                if i > 0 {
                    s.push(',')
                }
                write(x, s, att);
            }
            s.push(']');
        }
        J::Obj(o) => {
            s.push('{');
            for (i, (k, x)) in o.iter().enumerate() {
                if i > 0 {
                    s.push(',')
                }
                s.push_str(&quote(k));
                s.push(':');
                write(x, s, att);
            }
            s.push('}');
        }
        J::Bytes(b) => match att {
            Some(a) => {
                s.push_str(&format!("{{\"_placeholder\":true,\"num\":{}}}", a.len()));
                a.push(b.clone());
            }
            None => {
                s.push('[');
                for (i, x) in b.iter().enumerate() {
                    if i > 0 {
                        s.push(',')
                    }
                    s.push_str(&x.to_string());
                }
                s.push(']');
            }
        },
    }
}

/// serde_json's dynamic value, as a tree (objects sorted by key as serde_json keeps them).
pub fn from_value(v: &serde_json::Value) -> J {
    use serde_json::Value::*;
    match v {
        Null => J::Null,
        Bool(b) => J::Bool(*b),
        Number(n) => J::Num(n.to_string()),
        String(s) => J::Str(s.clone()),
        Array(a) => J::Arr(a.iter().map(from_value).collect()),
        Object(o) => J::Obj(o.iter().map(|(k, v)| (k.clone(), from_value(v))).collect()),
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Kind {
    Connect,
    Disconnect,
    Event,
    Ack,
}

#[derive(Clone, Debug, PartialEq)]
pub struct RefPacket {
    pub kind: Kind,
    pub binary: bool,
    pub attachments: u64,
    pub ns: String,
    pub id: Option<u64>,
    pub args: Vec<String>,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Parsed {
    Ok(RefPacket),
    Err,
    /// A binary packet beyond repair that may only be reported once its attachments are there.
    Late(u64),
    /// The packet grammar leaves it open; any non-panicking behaviour is accepted.
    Open,
}

/// The Socket.IO packet grammar (protocol v4/v5 text form):
/// `<type>[<count>-][<namespace>,][<id>][<JSON array>]`.
pub fn parse_packet(t: &str) -> Parsed {
    let mut open = false;
    let mut it = t.chars();
    let (kind, binary) = match it.next() {
        Some('0') => (Kind::Connect, false),
        Some('1') => (Kind::Disconnect, false),
        Some('2') => (Kind::Event, false),
        Some('3') => (Kind::Ack, false),
        Some('5') => (Kind::Event, true),
        Some('6') => (Kind::Ack, true),
        _ => return Parsed::Err,
    };
    let mut rest = &t[1..];
    let mut count: Option<&str> = None;
    let nd = rest.bytes().take_while(|b| b.is_ascii_digit()).count();
    if nd > 0 && rest.as_bytes().get(nd) == Some(&b'-') {
        count = Some(&rest[..nd]);
        rest = &rest[nd + 1..];
    }
    let mut ns = "/";
    if rest.starts_with('/') {
        match rest.find(',') {
            Some(1) => {
                open = true; // an explicit root namespace
                rest = &rest[2..];
            }
            Some(i) => {
                ns = &rest[..i];
                if ns.contains(|c: char| c == '\n' || c == '\r') {
                    open = true;
                }
                rest = &rest[i + 1..];
            }
            None => return Parsed::Err,
        }
    }
    let nd = rest.bytes().take_while(|b| b.is_ascii_digit()).count();
    let mut id: Option<&str> = None;
    if nd > 0 {
        id = Some(&rest[..nd]);
        rest = &rest[nd..];
    }
    let args = if rest.is_empty() {
        None
    } else {
        if !rest.starts_with('[') || !rest.ends_with(']') {
            return Parsed::Err;
        }
        // JSON validity as text; values that JSON allows but Rust numbers or strings cannot
        // represent are still packets.
        if crate_json_ok(rest) {
            Some(split_array(rest))
        } else if json_shape_ok(rest) {
            open = true;
            Some(split_array(rest))
        } else {
            return Parsed::Err;
        }
    };
    let canon = |s: &str| s == "0" || !s.starts_with('0');
    let mut cn = None;
    if let Some(c) = count {
        if !canon(c) {
            return Parsed::Err;
        }
        match c.parse::<u64>() {
            Ok(v) => cn = Some(v),
            Err(_) => return Parsed::Err,
        }
    }
    let mut idn = None;
    if let Some(c) = id {
        if !canon(c) {
            return Parsed::Err;
        }
        match c.parse::<u64>() {
            Ok(v) => idn = Some(v),
            Err(_) => return Parsed::Err,
        }
    }
    match kind {
        Kind::Connect | Kind::Disconnect => {
            if cn.is_some() || idn.is_some() {
                return Parsed::Err;
            }
            match &args {
                Some(a) if !a.is_empty() => return Parsed::Err,
                Some(_) => open = true, // an empty array carries nothing
                None => {}
            }
        }
        Kind::Event | Kind::Ack => {
            if binary && cn.is_none() {
                return Parsed::Err;
            }
            if !binary {
                match cn {
                    Some(0) => open = true, // zero attachments announced on a text packet
                    Some(_) => return Parsed::Err,
                    None => {}
                }
            }
            if (kind == Kind::Ack && idn.is_none()) || (kind == Kind::Event && args.as_ref().map_or(true, |a| a.is_empty())) {
                match cn {
                    Some(n) if binary && n > 0 && !open => return Parsed::Late(n),
                    _ => return Parsed::Err,
                }
            }
        }
    }
    if open {
        return Parsed::Open;
    }
    Parsed::Ok(RefPacket {
        kind,
        binary,
        attachments: cn.unwrap_or(0),
        ns: ns.to_string(),
        id: idn,
        args: args.unwrap_or_default(),
    })
}

fn crate_json_ok(t: &str) -> bool {
    parse_json(t).is_some()
}

/// Valid JSON by RFC 8259 except for unpaired surrogate escapes, which the RFC tolerates.
fn json_shape_ok(t: &str) -> bool {
    // Replace every \uXXXX escape by a harmless one and look again.
    let b: Vec<char> = t.chars().collect();
    let mut o = String::new();
    let mut i = 0;
    while i < b.len() {
        if b[i] == '\\' && i + 1 < b.len() {
            if b[i + 1] == 'u' && i + 5 < b.len() && b[i + 2..i + 6].iter().all(|c| c.is_ascii_hexdigit()) {
                o.push('x');
                i += 6;
            } else {
                o.push(b[i]);
                o.push(b[i + 1]);
                i += 2;
            }
        } else {
            o.push(b[i]);
            i += 1;
        }
    }
    parse_json(&o).is_some()
}
