//! Dynamic values covering every shape of the serde data model, and the tree they are expected to
//! appear as on the wire.
use serde::ser::{
    Error as _, Serialize, SerializeMap, SerializeSeq, SerializeStruct, SerializeStructVariant, SerializeTuple,
    SerializeTupleStruct, SerializeTupleVariant, Serializer,
};

use crate::reference::J;

thread_local! {
    static FUSE: std::cell::Cell<Option<u32>> = const { std::cell::Cell::new(None) };
    static BLOWN: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}

/// From the `n`-th serialization call on (counting from 0), every value of this thread refuses.
pub fn set_fuse(n: Option<u32>) {
    FUSE.with(|f| f.set(n));
    BLOWN.with(|b| b.set(false));
}

fn blown() -> bool {
    FUSE.with(|f| match f.get() {
        None => false,
        Some(0) => {
            BLOWN.with(|b| b.set(true));
            true
        }
        Some(n) => {
            f.set(Some(n - 1));
            false
        }
    })
}

/// Was anything refused since `set_fuse`?
pub fn fuse_blown() -> bool {
    BLOWN.with(|b| b.get())
}

#[derive(Clone, Debug, PartialEq)]
pub enum Val {
    Bool(bool),
    I8(i8),
    I16(i16),
    I32(i32),
    I64(i64),
    I128(i128),
    U8(u8),
    U16(u16),
    U32(u32),
    U64(u64),
    U128(u128),
    F32(f32),
    F64(f64),
    Char(char),
    Str(String),
    /// `collect_str`
    Disp(String),
    Bytes(Vec<u8>),
    None,
    Some(Box<Val>),
    Unit,
    UnitStruct,
    UnitVariant,
    Newtype(Box<Val>),
    NewtypeVariant(Box<Val>),
    /// sequence; second: length announced
    Seq(Vec<Val>, bool),
    Tuple(Vec<Val>),
    TupleStruct(Vec<Val>),
    TupleVariant(Vec<Val>),
    /// entries; length announced; entries written as one call
    Map(Vec<(Val, Val)>, bool, bool),
    /// fields, None = skipped field
    Struct(Vec<(&'static str, Option<Val>)>),
    StructVariant(Vec<(&'static str, Option<Val>)>),
    /// pre-serialized JSON text
    Raw(String),
    /// "h" if the serializer is human readable, else a number
    HrProbe,
    /// fails to serialize
    Fail,
    /// a sequence that writes its elements and then fails
    FailAfter(Vec<Val>),
}

impl Serialize for Val {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        use Val::*;
        if blown() {
            return Err(S::Error::custom("injected failure"));
        }
        match self {
            Bool(v) => s.serialize_bool(*v),
            I8(v) => s.serialize_i8(*v),
            I16(v) => s.serialize_i16(*v),
            I32(v) => s.serialize_i32(*v),
            I64(v) => s.serialize_i64(*v),
            I128(v) => s.serialize_i128(*v),
            U8(v) => s.serialize_u8(*v),
            U16(v) => s.serialize_u16(*v),
            U32(v) => s.serialize_u32(*v),
            U64(v) => s.serialize_u64(*v),
            U128(v) => s.serialize_u128(*v),
            F32(v) => s.serialize_f32(*v),
            F64(v) => s.serialize_f64(*v),
            Char(v) => s.serialize_char(*v),
            Str(v) => s.serialize_str(v),
            Disp(v) => s.collect_str(v),
            Bytes(v) => s.serialize_bytes(v),
            None => s.serialize_none(),
            Some(v) => s.serialize_some(&**v),
            Unit => s.serialize_unit(),
            UnitStruct => s.serialize_unit_struct("US"),
            UnitVariant => s.serialize_unit_variant("E", 2, "UV"),
            Newtype(v) => s.serialize_newtype_struct("N", &**v),
            NewtypeVariant(v) => s.serialize_newtype_variant("E", 1, "NV", &**v),
            Seq(v, known) => {
                let mut q = s.serialize_seq(if *known { Option::Some(v.len()) } else { Option::None })?;
                for x in v {
                    q.serialize_element(x)?;
                }
                q.end()
            }
            Tuple(v) => {
                let mut q = s.serialize_tuple(v.len())?;
                for x in v {
                    q.serialize_element(x)?;
                }
                q.end()
            }
            TupleStruct(v) => {
                let mut q = s.serialize_tuple_struct("TS", v.len())?;
                for x in v {
                    q.serialize_field(x)?;
                }
                q.end()
            }
            TupleVariant(v) => {
                let mut q = s.serialize_tuple_variant("E", 3, "TV", v.len())?;
                for x in v {
                    q.serialize_field(x)?;
                }
                q.end()
            }
            Map(v, known, entry) => {
                let mut q = s.serialize_map(if *known { Option::Some(v.len()) } else { Option::None })?;
                for (k, x) in v {
                    if *entry {
                        q.serialize_entry(k, x)?;
                    } else {
                        q.serialize_key(k)?;
                        q.serialize_value(x)?;
                    }
                }
                q.end()
            }
            Struct(v) => {
                let mut q = s.serialize_struct("S", v.iter().filter(|x| x.1.is_some()).count())?;
                for (k, x) in v {
                    match x {
                        Option::Some(x) => q.serialize_field(k, x)?,
                        Option::None => q.skip_field(k)?,
                    }
                }
                q.end()
            }
            StructVariant(v) => {
                let mut q =
                    s.serialize_struct_variant("E", 4, "SV", v.iter().filter(|x| x.1.is_some()).count())?;
                for (k, x) in v {
                    match x {
                        Option::Some(x) => q.serialize_field(k, x)?,
                        Option::None => q.skip_field(k)?,
                    }
                }
                q.end()
            }
            Raw(t) => serde_json::value::RawValue::from_string(t.clone())
                .map_err(S::Error::custom)?
                .serialize(s),
            HrProbe => {
                if s.is_human_readable() {
                    s.serialize_str("h")
                } else {
                    s.serialize_u8(0)
                }
            }
            Fail => Err(S::Error::custom("refused")),
            FailAfter(v) => {
                let mut q = s.serialize_seq(Option::Some(v.len() + 1))?;
                for x in v {
                    q.serialize_element(x)?;
                }
                Err(S::Error::custom("refused late"))
            }
        }
    }
}

impl Val {
    pub fn fails(&self) -> bool {
        self.wire(false).is_none()
    }

    /// The tree this value must appear as; `None` if it must be refused.  In binary mode byte
    /// strings and non-empty sequences of u8 are `J::Bytes`; in text mode they are arrays.
    pub fn wire(&self, binary: bool) -> Option<J> {
        use Val::*;
        let list = |v: &Vec<Val>| -> Option<Vec<J>> { v.iter().map(|x| x.wire(binary)).collect() };
        let fields = |v: &Vec<(&'static str, Option<Val>)>| -> Option<Vec<(String, J)>> {
            v.iter()
                .filter_map(|(k, x)| x.as_ref().map(|x| (k, x)))
                .map(|(k, x)| x.wire(binary).map(|j| (k.to_string(), j)))
                .collect()
        };
        let num = |s: String| Option::Some(J::Num(s));
        match self {
            Bool(b) => Option::Some(J::Bool(*b)),
            I8(v) => num(v.to_string()),
            I16(v) => num(v.to_string()),
            I32(v) => num(v.to_string()),
            I64(v) => num(v.to_string()),
            I128(v) => num(v.to_string()),
            U8(v) => num(v.to_string()),
            U16(v) => num(v.to_string()),
            U32(v) => num(v.to_string()),
            U64(v) => num(v.to_string()),
            U128(v) => num(v.to_string()),
            F32(v) => crate::reference::parse_json(&serde_json::to_string(v).ok()?),
            F64(v) => crate::reference::parse_json(&serde_json::to_string(v).ok()?),
            Char(c) => Option::Some(J::Str(c.to_string())),
            Str(s) | Disp(s) => Option::Some(J::Str(s.clone())),
            Bytes(b) => Option::Some(if binary {
                J::Bytes(b.clone())
            } else {
                J::Arr(b.iter().map(|x| J::Num(x.to_string())).collect())
            }),
            None | Unit | UnitStruct => Option::Some(J::Null),
            Some(v) | Newtype(v) => v.wire(binary),
            UnitVariant => Option::Some(J::Str("UV".into())),
            NewtypeVariant(v) => Option::Some(J::Obj(vec![("NV".into(), v.wire(binary)?)])),
            Seq(v, _) => {
                let bytes: Option<Vec<u8>> = v
                    .iter()
                    .map(|x| match x {
                        U8(b) => Option::Some(*b),
                        _ => Option::None,
                    })
                    .collect();
                match bytes {
                    Option::Some(b) if binary && !b.is_empty() => Option::Some(J::Bytes(b)),
                    _ => Option::Some(J::Arr(list(v)?)),
                }
            }
            Tuple(v) | TupleStruct(v) => Option::Some(J::Arr(list(v)?)),
            TupleVariant(v) => Option::Some(J::Obj(vec![("TV".into(), J::Arr(list(v)?))])),
            Map(v, _, _) => {
                let mut o = Vec::new();
                for (k, x) in v {
                    o.push((k.key()?, x.wire(binary)?));
                }
                Option::Some(J::Obj(o))
            }
            Struct(v) => Option::Some(J::Obj(fields(v)?)),
            StructVariant(v) => Option::Some(J::Obj(vec![("SV".into(), J::Obj(fields(v)?))])),
            Raw(t) => crate::reference::parse_json(t),
            HrProbe => Option::Some(J::Str("h".into())),
            Fail | FailAfter(_) => Option::None,
        }
    }

    /// The text this value has as a map key in plain JSON, if allowed.
    fn key(&self) -> Option<String> {
        let m = Val::Map(vec![(self.clone(), Val::Unit)], true, true);
        let t = serde_json::to_string(&m).ok()?;
        match crate::reference::parse_json(&t)? {
            J::Obj(mut o) => Option::Some(o.pop()?.0),
            _ => Option::None,
        }
    }
}
