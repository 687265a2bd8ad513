//! Type-directed deserialization: a run-time description of a Rust type that behaves, towards the
//! deserializer, as the derived or standard `Deserialize` implementation of that type does.
use std::borrow::Cow;
use std::cell::RefCell;
use std::fmt;

use serde::de::{
    Deserialize, DeserializeSeed, Deserializer, EnumAccess, Error, IgnoredAny, MapAccess, SeqAccess, VariantAccess,
    Visitor,
};

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Bool,
    I8,
    I16,
    I64,
    U8,
    U16,
    U32,
    U64,
    I128,
    U128,
    F32,
    F64,
    Char,
    Str,
    BorrowedStr,
    CowStr,
    /// says whether the format claims to be human readable
    Human,
    /// accepts nothing but bytes, asked for as `byte_buf` or as `bytes`
    OnlyBytes(bool),
    /// accepts bytes in every form and sequences of u8 (like serde_bytes::ByteBuf)
    Bytes,
    /// `&'de [u8]`
    BorrowedBytes,
    Unit,
    UnitStruct,
    Opt(Box<Ty>),
    Newtype(Box<Ty>),
    Seq(Box<Ty>),
    Tuple(Vec<Ty>),
    TupleStruct(Vec<Ty>),
    Map(Box<Ty>, Box<Ty>),
    Struct(&'static [(&'static str, Ty)], bool),
    Enum(&'static [(&'static str, VTy)]),
    /// whatever is there, via `deserialize_any`
    Any,
    Ignored,
}

#[derive(Clone, Debug, PartialEq)]
pub enum VTy {
    Unit,
    Newtype(Ty),
    Tuple(Vec<Ty>),
    Struct(&'static [(&'static str, Ty)]),
}

#[derive(Clone, Debug, PartialEq)]
pub enum DynVal {
    Bool(bool),
    I(i128),
    U(u128),
    F(u64),
    Char(char),
    Str(String),
    Bytes(Vec<u8>),
    None,
    Some(Box<DynVal>),
    Unit,
    Newtype(Box<DynVal>),
    Seq(Vec<DynVal>),
    Map(Vec<(DynVal, DynVal)>),
    Struct(Vec<Option<DynVal>>),
    Variant(&'static str, Box<DynVal>),
    Ignored,
}

impl DynVal {
    /// Byte strings and sequences of small numbers are the same content.
    pub fn norm(self) -> DynVal {
        match self {
            DynVal::Seq(v) => {
                let v: Vec<DynVal> = v.into_iter().map(|x| x.norm()).collect();
                let b: Option<Vec<u8>> = v
                    .iter()
                    .map(|x| match x {
                        DynVal::U(n) if *n < 256 => Some(*n as u8),
                        DynVal::I(n) if (0..256).contains(n) => Some(*n as u8),
                        _ => None,
                    })
                    .collect();
                match b {
                    Some(b) => DynVal::Bytes(b),
                    None => DynVal::Seq(v),
                }
            }
            DynVal::Some(v) => DynVal::Some(Box::new(v.norm())),
            DynVal::Newtype(v) => DynVal::Newtype(Box::new(v.norm())),
            DynVal::Map(v) => DynVal::Map(v.into_iter().map(|(k, v)| (k.norm(), v.norm())).collect()),
            DynVal::Struct(v) => DynVal::Struct(v.into_iter().map(|x| x.map(|x| x.norm())).collect()),
            DynVal::Variant(n, v) => DynVal::Variant(n, Box::new(v.norm())),
            x => x,
        }
    }
}

thread_local! {
    static CUR: RefCell<Option<Ty>> = const { RefCell::new(None) };
}

/// Set the type that `Dyn` denotes on this thread.
pub fn set_type(t: Ty) {
    CUR.with(|c| *c.borrow_mut() = Some(t));
}

#[derive(Debug, PartialEq)]
pub struct Dyn(pub DynVal);

impl<'de> Deserialize<'de> for Dyn {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        let t = CUR.with(|c| c.borrow().clone()).expect("type set");
        (&t).deserialize(d).map(Dyn)
    }
}

impl<'t, 'de> DeserializeSeed<'de> for &'t Ty {
    type Value = DynVal;

    fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<DynVal, D::Error> {
        macro_rules! int {
            ($t:ty, $v:ident, $w:ty) => {
                <$t>::deserialize(d).map(|x| DynVal::$v(x as $w))
            };
        }
        match self {
            Ty::Bool => bool::deserialize(d).map(DynVal::Bool),
            Ty::I8 => int!(i8, I, i128),
            Ty::I16 => int!(i16, I, i128),
            Ty::I64 => int!(i64, I, i128),
            Ty::I128 => int!(i128, I, i128),
            Ty::U8 => int!(u8, U, u128),
            Ty::U16 => int!(u16, U, u128),
            Ty::U32 => int!(u32, U, u128),
            Ty::U64 => int!(u64, U, u128),
            Ty::U128 => int!(u128, U, u128),
            Ty::F32 => f32::deserialize(d).map(|x| DynVal::F(x.to_bits() as u64)),
            Ty::F64 => f64::deserialize(d).map(|x| DynVal::F(x.to_bits())),
            Ty::Char => char::deserialize(d).map(DynVal::Char),
            Ty::Str => String::deserialize(d).map(DynVal::Str),
            Ty::BorrowedStr => <&'de str>::deserialize(d).map(|s| DynVal::Str(s.to_string())),
            Ty::CowStr => Cow::<'de, str>::deserialize(d).map(|s| DynVal::Str(s.to_string())),
            Ty::Bytes => d.deserialize_byte_buf(BytesVisitor),
            Ty::OnlyBytes(true) => d.deserialize_byte_buf(OnlyBytesVisitor),
            Ty::OnlyBytes(false) => d.deserialize_bytes(OnlyBytesVisitor),
            Ty::BorrowedBytes => <&'de [u8]>::deserialize(d).map(|s| DynVal::Bytes(s.to_vec())),
            Ty::Unit => <()>::deserialize(d).map(|_| DynVal::Unit),
            Ty::UnitStruct => d.deserialize_unit_struct("US", V(self)),
            Ty::Opt(_) => d.deserialize_option(V(self)),
            Ty::Newtype(_) => d.deserialize_newtype_struct("N", V(self)),
            Ty::Seq(_) => d.deserialize_seq(V(self)),
            Ty::Tuple(v) => d.deserialize_tuple(v.len(), V(self)),
            Ty::TupleStruct(v) => d.deserialize_tuple_struct("TS", v.len(), V(self)),
            Ty::Map(..) => d.deserialize_map(V(self)),
            Ty::Struct(f, _) => d.deserialize_struct("S", names(f), V(self)),
            Ty::Enum(v) => d.deserialize_enum("E", vnames(v), V(self)),
            Ty::Any => d.deserialize_any(AnyVisitor),
            Ty::Human => {
                let h = d.is_human_readable();
                IgnoredAny::deserialize(d).map(|_| DynVal::Bool(h))
            }
            Ty::Ignored => IgnoredAny::deserialize(d).map(|_| DynVal::Ignored),
        }
    }
}

struct OnlyBytesVisitor;
impl<'de> Visitor<'de> for OnlyBytesVisitor {
    type Value = DynVal;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("bytes")
    }
    fn visit_bytes<E>(self, v: &[u8]) -> Result<DynVal, E> {
        Ok(DynVal::Bytes(v.to_vec()))
    }
    fn visit_byte_buf<E>(self, v: Vec<u8>) -> Result<DynVal, E> {
        Ok(DynVal::Bytes(v))
    }
}

struct BytesVisitor;
impl<'de> Visitor<'de> for BytesVisitor {
    type Value = DynVal;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("byte array")
    }
    fn visit_bytes<E>(self, v: &[u8]) -> Result<DynVal, E> {
        Ok(DynVal::Bytes(v.to_vec()))
    }
    fn visit_byte_buf<E>(self, v: Vec<u8>) -> Result<DynVal, E> {
        Ok(DynVal::Bytes(v))
    }
    fn visit_str<E>(self, v: &str) -> Result<DynVal, E> {
        Ok(DynVal::Bytes(v.as_bytes().to_vec()))
    }
    fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<DynVal, A::Error> {
        let mut v = Vec::new();
        while let Some(b) = a.next_element::<u8>()? {
            v.push(b)
        }
        Ok(DynVal::Bytes(v))
    }
}

fn intern(v: Vec<&'static str>) -> &'static [&'static str] {
    thread_local! {
        static I: RefCell<Vec<&'static [&'static str]>> = const { RefCell::new(Vec::new()) };
    }
    I.with(|i| {
        let mut i = i.borrow_mut();
        if let Some(x) = i.iter().find(|x| ***x == v[..]) {
            return *x;
        }
        let l: &'static [&'static str] = Box::leak(v.into_boxed_slice());
        i.push(l);
        l
    })
}
fn names(f: &[(&'static str, Ty)]) -> &'static [&'static str] {
    intern(f.iter().map(|x| x.0).collect())
}
fn vnames(f: &[(&'static str, VTy)]) -> &'static [&'static str] {
    intern(f.iter().map(|x| x.0).collect())
}

/// Field or variant identifier, as derive generates it: by name, bytes or index.
struct Ident<'t>(&'t [&'static str], bool);
struct IdentVisitor<'t>(&'t [&'static str], bool);
impl<'t, 'de> DeserializeSeed<'de> for Ident<'t> {
    type Value = Option<usize>;
    fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<Option<usize>, D::Error> {
        d.deserialize_identifier(IdentVisitor(self.0, self.1))
    }
}
impl<'t, 'de> Visitor<'de> for IdentVisitor<'t> {
    type Value = Option<usize>;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("identifier")
    }
    fn visit_u64<E: Error>(self, v: u64) -> Result<Option<usize>, E> {
        Ok(if (v as usize) < self.0.len() { Some(v as usize) } else { None })
    }
    fn visit_str<E: Error>(self, v: &str) -> Result<Option<usize>, E> {
        let r = self.0.iter().position(|x| *x == v);
        if r.is_none() && self.1 {
            return Err(E::custom("unknown name"));
        }
        Ok(r)
    }
    fn visit_bytes<E: Error>(self, v: &[u8]) -> Result<Option<usize>, E> {
        let r = self.0.iter().position(|x| x.as_bytes() == v);
        if r.is_none() && self.1 {
            return Err(E::custom("unknown name"));
        }
        Ok(r)
    }
}

struct V<'t>(&'t Ty);

fn seq_fixed<'de, A: SeqAccess<'de>>(tys: &[Ty], mut a: A) -> Result<Vec<DynVal>, A::Error> {
    let mut v = Vec::new();
    for (i, t) in tys.iter().enumerate() {
        match a.next_element_seed(t)? {
            Some(x) => v.push(x),
            None => return Err(A::Error::invalid_length(i, &"more elements")),
        }
    }
    Ok(v)
}

fn map_struct<'de, A: MapAccess<'de>>(f: &[(&'static str, Ty)], deny: bool, mut a: A) -> Result<DynVal, A::Error> {
    let ns: Vec<&'static str> = f.iter().map(|x| x.0).collect();
    let mut out: Vec<Option<DynVal>> = vec![None; f.len()];
    while let Some(k) = a.next_key_seed(Ident(&ns, deny))? {
        match k {
            Some(i) => {
                if out[i].is_some() {
                    return Err(A::Error::duplicate_field("field"));
                }
                out[i] = Some(a.next_value_seed(&f[i].1)?);
            }
            None => {
                a.next_value::<IgnoredAny>()?;
            }
        }
    }
    for (i, (n, t)) in f.iter().enumerate() {
        if out[i].is_none() && !matches!(t, Ty::Opt(_)) {
            return Err(A::Error::missing_field(n));
        }
    }
    Ok(DynVal::Struct(out))
}

impl<'t, 'de> Visitor<'de> for V<'t> {
    type Value = DynVal;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "{:?}", self.0)
    }
    fn visit_unit<E: Error>(self) -> Result<DynVal, E> {
        match self.0 {
            Ty::UnitStruct => Ok(DynVal::Unit),
            Ty::Opt(_) => Ok(DynVal::None),
            _ => Err(E::custom("unexpected unit")),
        }
    }
    fn visit_none<E: Error>(self) -> Result<DynVal, E> {
        match self.0 {
            Ty::Opt(_) => Ok(DynVal::None),
            _ => Err(E::custom("unexpected none")),
        }
    }
    fn visit_some<D: Deserializer<'de>>(self, d: D) -> Result<DynVal, D::Error> {
        match self.0 {
            Ty::Opt(t) => (&**t).deserialize(d).map(|v| DynVal::Some(Box::new(v))),
            _ => Err(D::Error::custom("unexpected some")),
        }
    }
    fn visit_newtype_struct<D: Deserializer<'de>>(self, d: D) -> Result<DynVal, D::Error> {
        match self.0 {
            Ty::Newtype(t) => (&**t).deserialize(d).map(|v| DynVal::Newtype(Box::new(v))),
            _ => Err(D::Error::custom("unexpected newtype")),
        }
    }
    fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<DynVal, A::Error> {
        match self.0 {
            Ty::Seq(t) => {
                let mut v = Vec::new();
                while let Some(x) = a.next_element_seed(&**t)? {
                    v.push(x)
                }
                Ok(DynVal::Seq(v))
            }
            Ty::Tuple(ts) | Ty::TupleStruct(ts) => seq_fixed(ts, a).map(DynVal::Seq),
            Ty::Newtype(t) => match a.next_element_seed(&**t)? {
                Some(v) => Ok(DynVal::Newtype(Box::new(v))),
                None => Err(A::Error::invalid_length(0, &"one element")),
            },
            Ty::Struct(f, _) => {
                let ts: Vec<Ty> = f.iter().map(|x| x.1.clone()).collect();
                seq_fixed(&ts, a).map(|v| DynVal::Struct(v.into_iter().map(Some).collect()))
            }
            _ => Err(A::Error::custom("unexpected sequence")),
        }
    }
    fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<DynVal, A::Error> {
        match self.0 {
            Ty::Map(k, v) => {
                let mut out = Vec::new();
                while let Some(x) = a.next_key_seed(&**k)? {
                    out.push((x, a.next_value_seed(&**v)?));
                }
                Ok(DynVal::Map(out))
            }
            Ty::Struct(f, deny) => map_struct(f, *deny, a),
            _ => Err(A::Error::custom("unexpected map")),
        }
    }
    fn visit_enum<A: EnumAccess<'de>>(self, a: A) -> Result<DynVal, A::Error> {
        match self.0 {
            Ty::Enum(vs) => {
                let ns: Vec<&'static str> = vs.iter().map(|x| x.0).collect();
                let (i, va) = a.variant_seed(Ident(&ns, true))?;
                let i = i.ok_or_else(|| A::Error::custom("unknown variant"))?;
                let inner = match &vs[i].1 {
                    VTy::Unit => va.unit_variant().map(|_| DynVal::Unit)?,
                    VTy::Newtype(t) => va.newtype_variant_seed(t)?,
                    VTy::Tuple(ts) => va.tuple_variant(ts.len(), VarTuple(ts))?,
                    VTy::Struct(f) => va.struct_variant(names(f), VarStruct(f))?,
                };
                Ok(DynVal::Variant(vs[i].0, Box::new(inner)))
            }
            _ => Err(A::Error::custom("unexpected enum")),
        }
    }
}

struct VarTuple<'t>(&'t [Ty]);
impl<'t, 'de> Visitor<'de> for VarTuple<'t> {
    type Value = DynVal;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("tuple variant")
    }
    fn visit_seq<A: SeqAccess<'de>>(self, a: A) -> Result<DynVal, A::Error> {
        seq_fixed(self.0, a).map(DynVal::Seq)
    }
}
struct VarStruct<'t>(&'t [(&'static str, Ty)]);
impl<'t, 'de> Visitor<'de> for VarStruct<'t> {
    type Value = DynVal;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("struct variant")
    }
    fn visit_seq<A: SeqAccess<'de>>(self, a: A) -> Result<DynVal, A::Error> {
        let ts: Vec<Ty> = self.0.iter().map(|x| x.1.clone()).collect();
        seq_fixed(&ts, a).map(|v| DynVal::Struct(v.into_iter().map(Some).collect()))
    }
    fn visit_map<A: MapAccess<'de>>(self, a: A) -> Result<DynVal, A::Error> {
        map_struct(self.0, false, a)
    }
}

struct AnyVisitor;
struct AnySeed;
impl<'de> DeserializeSeed<'de> for AnySeed {
    type Value = DynVal;
    fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<DynVal, D::Error> {
        d.deserialize_any(AnyVisitor)
    }
}
impl<'de> Visitor<'de> for AnyVisitor {
    type Value = DynVal;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("anything")
    }
    fn visit_bool<E>(self, v: bool) -> Result<DynVal, E> {
        Ok(DynVal::Bool(v))
    }
    fn visit_i64<E>(self, v: i64) -> Result<DynVal, E> {
        Ok(DynVal::I(v as i128))
    }
    fn visit_u64<E>(self, v: u64) -> Result<DynVal, E> {
        Ok(DynVal::U(v as u128))
    }
    fn visit_f64<E>(self, v: f64) -> Result<DynVal, E> {
        Ok(DynVal::F(v.to_bits()))
    }
    fn visit_str<E>(self, v: &str) -> Result<DynVal, E> {
        Ok(DynVal::Str(v.to_string()))
    }
    fn visit_bytes<E>(self, v: &[u8]) -> Result<DynVal, E> {
        Ok(DynVal::Bytes(v.to_vec()))
    }
    fn visit_unit<E>(self) -> Result<DynVal, E> {
        Ok(DynVal::Unit)
    }
    fn visit_none<E>(self) -> Result<DynVal, E> {
        Ok(DynVal::None)
    }
    fn visit_some<D: Deserializer<'de>>(self, d: D) -> Result<DynVal, D::Error> {
        AnySeed.deserialize(d).map(|v| DynVal::Some(Box::new(v)))
    }
    fn visit_newtype_struct<D: Deserializer<'de>>(self, d: D) -> Result<DynVal, D::Error> {
        AnySeed.deserialize(d).map(|v| DynVal::Newtype(Box::new(v)))
    }
    fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<DynVal, A::Error> {
        let mut v = Vec::new();
        while let Some(x) = a.next_element_seed(AnySeed)? {
            v.push(x)
        }
        Ok(DynVal::Seq(v))
    }
    fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<DynVal, A::Error> {
        let mut out = Vec::new();
        while let Some(x) = a.next_key_seed(AnySeed)? {
            out.push((x, a.next_value_seed(AnySeed)?));
        }
        Ok(DynVal::Map(out))
    }
}
