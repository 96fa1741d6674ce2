//! Deterministic generators shared by all concrete checks.
use serde::de::{self, DeserializeSeed, Deserializer, SeqAccess, MapAccess, Visitor};
use serde::ser::{SerializeMap, SerializeStruct, SerializeTuple};
use serde::{Serialize, Serializer};
use std::fmt;

pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(seed.wrapping_mul(0x9E37_79B9_7F4A_7C15) | 1)
    }
    pub fn next(&mut self) -> u64 {
        self.0 ^= self.0 << 13;
        self.0 ^= self.0 >> 7;
        self.0 ^= self.0 << 17;
        self.0.wrapping_mul(0x2545_F491_4F6C_DD1D)
    }
    pub fn below(&mut self, n: usize) -> usize {
        ((self.next() >> 11) % (n as u64)) as usize
    }
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        let i = self.below(xs.len());
        &xs[i]
    }
}

/// The serde kinds that path, query and header values are made of.
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
pub enum Kind {
    Bool, I8, I16, I32, I64, U8, U16, U32, U64, F32, F64, Str,
}
pub const KINDS: &[Kind] = &[
    Kind::Bool, Kind::I8, Kind::I16, Kind::I32, Kind::I64, Kind::U8, Kind::U16, Kind::U32,
    Kind::U64, Kind::F32, Kind::F64, Kind::Str,
];

#[derive(Debug, Clone)]
pub enum Atom {
    Bool(bool), I8(i8), I16(i16), I32(i32), I64(i64), U8(u8), U16(u16), U32(u32), U64(u64),
    F32(f32), F64(f64), Str(String),
}
impl PartialEq for Atom {
    fn eq(&self, o: &Atom) -> bool {
        use Atom::*;
        match (self, o) {
            (Bool(a), Bool(b)) => a == b,
            (I8(a), I8(b)) => a == b,
            (I16(a), I16(b)) => a == b,
            (I32(a), I32(b)) => a == b,
            (I64(a), I64(b)) => a == b,
            (U8(a), U8(b)) => a == b,
            (U16(a), U16(b)) => a == b,
            (U32(a), U32(b)) => a == b,
            (U64(a), U64(b)) => a == b,
            (F32(a), F32(b)) => (a.is_nan() && b.is_nan()) || a.to_bits() == b.to_bits(),
            (F64(a), F64(b)) => (a.is_nan() && b.is_nan()) || a.to_bits() == b.to_bits(),
            (Str(a), Str(b)) => a == b,
            _ => false,
        }
    }
}
impl Atom {
    pub fn kind(&self) -> Kind {
        match self {
            Atom::Bool(_) => Kind::Bool, Atom::I8(_) => Kind::I8, Atom::I16(_) => Kind::I16,
            Atom::I32(_) => Kind::I32, Atom::I64(_) => Kind::I64, Atom::U8(_) => Kind::U8,
            Atom::U16(_) => Kind::U16, Atom::U32(_) => Kind::U32, Atom::U64(_) => Kind::U64,
            Atom::F32(_) => Kind::F32, Atom::F64(_) => Kind::F64, Atom::Str(_) => Kind::Str,
        }
    }
    /// The text that denotes the value.
    pub fn text(&self) -> String {
        match self {
            Atom::Bool(v) => v.to_string(), Atom::I8(v) => v.to_string(), Atom::I16(v) => v.to_string(),
            Atom::I32(v) => v.to_string(), Atom::I64(v) => v.to_string(), Atom::U8(v) => v.to_string(),
            Atom::U16(v) => v.to_string(), Atom::U32(v) => v.to_string(), Atom::U64(v) => v.to_string(),
            Atom::F32(v) => (*v as f64).to_string(), Atom::F64(v) => v.to_string(), Atom::Str(v) => v.clone(),
        }
    }
    /// Oracle: the value of kind `k` that `s` denotes, if any.
    pub fn parse(k: Kind, s: &str) -> Option<Atom> {
        Some(match k {
            Kind::Bool => Atom::Bool(match s { "true" => true, "false" => false, _ => return None }),
            Kind::I8 => Atom::I8(s.parse().ok()?), Kind::I16 => Atom::I16(s.parse().ok()?),
            Kind::I32 => Atom::I32(s.parse().ok()?), Kind::I64 => Atom::I64(s.parse().ok()?),
            Kind::U8 => Atom::U8(s.parse().ok()?), Kind::U16 => Atom::U16(s.parse().ok()?),
            Kind::U32 => Atom::U32(s.parse().ok()?), Kind::U64 => Atom::U64(s.parse().ok()?),
            Kind::F32 => Atom::F32(s.parse().ok()?), Kind::F64 => Atom::F64(s.parse().ok()?),
            Kind::Str => Atom::Str(s.to_string()),
        })
    }
}
impl Serialize for Atom {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        match *self {
            Atom::Bool(v) => s.serialize_bool(v), Atom::I8(v) => s.serialize_i8(v),
            Atom::I16(v) => s.serialize_i16(v), Atom::I32(v) => s.serialize_i32(v),
            Atom::I64(v) => s.serialize_i64(v), Atom::U8(v) => s.serialize_u8(v),
            Atom::U16(v) => s.serialize_u16(v), Atom::U32(v) => s.serialize_u32(v),
            Atom::U64(v) => s.serialize_u64(v), Atom::F32(v) => s.serialize_f32(v),
            Atom::F64(v) => s.serialize_f64(v), Atom::Str(ref v) => s.serialize_str(v),
        }
    }
}
impl<'de> DeserializeSeed<'de> for Kind {
    type Value = Atom;
    fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<Atom, D::Error> {
        use serde::Deserialize;
        Ok(match self {
            Kind::Bool => Atom::Bool(bool::deserialize(d)?), Kind::I8 => Atom::I8(i8::deserialize(d)?),
            Kind::I16 => Atom::I16(i16::deserialize(d)?), Kind::I32 => Atom::I32(i32::deserialize(d)?),
            Kind::I64 => Atom::I64(i64::deserialize(d)?), Kind::U8 => Atom::U8(u8::deserialize(d)?),
            Kind::U16 => Atom::U16(u16::deserialize(d)?), Kind::U32 => Atom::U32(u32::deserialize(d)?),
            Kind::U64 => Atom::U64(u64::deserialize(d)?), Kind::F32 => Atom::F32(f32::deserialize(d)?),
            Kind::F64 => Atom::F64(f64::deserialize(d)?), Kind::Str => Atom::Str(String::deserialize(d)?),
        })
    }
}

/// How a sequence of values is presented to serde.
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
pub enum TupleShape { Tuple, TupleStruct, Newtype, Variant, NewtypeVariant }

pub struct DynTuple<'a>(pub &'a [Atom], pub TupleShape);
impl<'a> Serialize for DynTuple<'a> {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        match self.1 {
            TupleShape::Tuple => {
                let mut t = s.serialize_tuple(self.0.len())?;
                for a in self.0 { t.serialize_element(a)?; }
                t.end()
            }
            TupleShape::TupleStruct => {
                use serde::ser::SerializeTupleStruct;
                let mut t = s.serialize_tuple_struct("T", self.0.len())?;
                for a in self.0 { t.serialize_field(a)?; }
                t.end()
            }
            TupleShape::Newtype => s.serialize_newtype_struct("N", &DynTuple(self.0, TupleShape::Tuple)),
            TupleShape::NewtypeVariant => s.serialize_newtype_variant("E", 1, "V", &DynTuple(self.0, TupleShape::Tuple)),
            TupleShape::Variant => {
                use serde::ser::SerializeTupleVariant;
                let mut t = s.serialize_tuple_variant("E", 1, "V", self.0.len())?;
                for a in self.0 { t.serialize_field(a)?; }
                t.end()
            }
        }
    }
}
/// Reads exactly `kinds.len()` elements, like derived code for a tuple does.
pub struct TupleSeed<'a>(pub &'a [Kind], pub TupleShape);
impl<'de, 'a> DeserializeSeed<'de> for TupleSeed<'a> {
    type Value = Vec<Atom>;
    fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<Vec<Atom>, D::Error> {
        struct V<'a>(&'a [Kind]);
        impl<'de, 'a> Visitor<'de> for V<'a> {
            type Value = Vec<Atom>;
            fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result { write!(f, "tuple") }
            fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<Vec<Atom>, A::Error> {
                let mut out = vec![];
                for k in self.0 {
                    match a.next_element_seed(*k)? {
                        Some(v) => out.push(v),
                        None => return Err(de::Error::invalid_length(out.len(), &"tuple")),
                    }
                }
                Ok(out)
            }
            fn visit_newtype_struct<D: Deserializer<'de>>(self, d: D) -> Result<Vec<Atom>, D::Error> {
                TupleSeed(self.0, TupleShape::Tuple).deserialize(d)
            }
        }
        match self.1 {
            TupleShape::Tuple | TupleShape::Variant | TupleShape::NewtypeVariant => d.deserialize_tuple(self.0.len(), V(self.0)),
            TupleShape::TupleStruct => d.deserialize_tuple_struct("T", self.0.len(), V(self.0)),
            TupleShape::Newtype => d.deserialize_newtype_struct("N", V(self.0)),
        }
    }
}

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
pub enum MapShape { Struct, Map, StructVariant, Newtype }

/// A field: name, declared optional?, kind, value.
#[derive(Debug, Clone, PartialEq)]
pub struct Field {
    pub name: &'static str,
    pub optional: bool,
    pub kind: Kind,
    pub value: Option<Atom>,
}
struct FieldVal<'a>(&'a Field);
impl<'a> Serialize for FieldVal<'a> {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        match (self.0.optional, self.0.value.as_ref()) {
            (true, Some(v)) => s.serialize_some(v),
            (true, None) => s.serialize_none(),
            (false, Some(v)) => v.serialize(s),
            (false, None) => unreachable!(),
        }
    }
}
pub struct DynStruct<'a>(pub &'a [Field], pub MapShape);
impl<'a> Serialize for DynStruct<'a> {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        match self.1 {
            MapShape::Struct => {
                let mut t = s.serialize_struct("S", self.0.len())?;
                for f in self.0 { t.serialize_field(f.name, &FieldVal(f))?; }
                t.end()
            }
            MapShape::Map => {
                let mut t = s.serialize_map(Some(self.0.len()))?;
                for f in self.0 { t.serialize_entry(f.name, &FieldVal(f))?; }
                t.end()
            }
            MapShape::StructVariant => {
                use serde::ser::SerializeStructVariant;
                let mut t = s.serialize_struct_variant("E", 0, "V", self.0.len())?;
                for f in self.0 { t.serialize_field(f.name, &FieldVal(f))?; }
                t.end()
            }
            MapShape::Newtype => s.serialize_newtype_struct("N", &DynStruct(self.0, MapShape::Struct)),
        }
    }
}
/// Decodes like derived code for a struct with these fields: unknown keys are ignored,
/// duplicates are an error, missing optionals are None.
pub struct StructSeed<'a>(pub &'a [Field], pub MapShape);
impl<'de, 'a> DeserializeSeed<'de> for StructSeed<'a> {
    type Value = Vec<Option<Atom>>;
    fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<Self::Value, D::Error> {
        struct V<'a>(&'a [Field]);
        struct KeySeed;
        impl<'de> DeserializeSeed<'de> for KeySeed {
            type Value = String;
            fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<String, D::Error> {
                struct KV;
                impl<'de> Visitor<'de> for KV {
                    type Value = String;
                    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result { write!(f, "key") }
                    fn visit_str<E>(self, s: &str) -> Result<String, E> { Ok(s.to_string()) }
                    fn visit_bytes<E: de::Error>(self, s: &[u8]) -> Result<String, E> {
                        String::from_utf8(s.to_vec()).map_err(|_| E::custom("utf8"))
                    }
                }
                d.deserialize_identifier(KV)
            }
        }
        struct OptSeed(Kind);
        impl<'de> DeserializeSeed<'de> for OptSeed {
            type Value = Option<Atom>;
            fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<Option<Atom>, D::Error> {
                struct OV(Kind);
                impl<'de> Visitor<'de> for OV {
                    type Value = Option<Atom>;
                    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result { write!(f, "option") }
                    fn visit_none<E>(self) -> Result<Option<Atom>, E> { Ok(None) }
                    fn visit_unit<E>(self) -> Result<Option<Atom>, E> { Ok(None) }
                    fn visit_some<D: Deserializer<'de>>(self, d: D) -> Result<Option<Atom>, D::Error> {
                        self.0.deserialize(d).map(Some)
                    }
                }
                d.deserialize_option(OV(self.0))
            }
        }
        impl<'de, 'a> Visitor<'de> for V<'a> {
            type Value = Vec<Option<Atom>>;
            fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result { write!(f, "struct") }
            fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<Self::Value, A::Error> {
                let mut out: Vec<Option<Option<Atom>>> = self.0.iter().map(|_| None).collect();
                while let Some(k) = a.next_key_seed(KeySeed)? {
                    if let Some(i) = self.0.iter().position(|f| f.name == k) {
                        if out[i].is_some() { return Err(de::Error::duplicate_field(self.0[i].name)); }
                        let v = if self.0[i].optional { a.next_value_seed(OptSeed(self.0[i].kind))? }
                                else { Some(a.next_value_seed(self.0[i].kind)?) };
                        out[i] = Some(v);
                    } else {
                        let _: de::IgnoredAny = a.next_value()?;
                    }
                }
                let mut r = vec![];
                for (i, o) in out.into_iter().enumerate() {
                    match o {
                        Some(v) => r.push(v),
                        None if self.0[i].optional => r.push(None),
                        None => return Err(de::Error::missing_field(self.0[i].name)),
                    }
                }
                Ok(r)
            }
            fn visit_newtype_struct<D: Deserializer<'de>>(self, d: D) -> Result<Self::Value, D::Error> {
                StructSeed(self.0, MapShape::Struct).deserialize(d)
            }
        }
        match self.1 {
            MapShape::Struct | MapShape::StructVariant => d.deserialize_struct("S", &[], V(self.0)),
            MapShape::Map => d.deserialize_map(V(self.0)),
            MapShape::Newtype => d.deserialize_newtype_struct("N", V(self.0)),
        }
    }
}

pub const STRINGS: &[&str] = &[
    "", "a", "foo", "hello world", "true", "false", "ture", "0", "-1", "1e3", "+5", "a+b", "a%20b", "%", "%2", "%2e",
    "%2E%2e", ".", "..", "...", ".a", "a/b", "/", "//", "a//b", "\\", "a\\b", "?", "a?b=c&d", "&", "=", "#", "a#b", ":", ";", "@",
    "é", "日本語", "😀", "\u{80}", "\u{ff}", "\u{7ff}", "\u{ffff}", "\u{10ffff}", "%E3%81%82", "\t", "\n", "\r", "a\tb", "a\nb",
    "a\r\nb", "x\r\nInjected: 1", "\u{0}", "\u{1f}", "\u{7f}", " ", " a", "a ", "\"", "'", "<", ">", "`", "{", "}", "|", "^", "~",
    "!", "$", "(", ")", "*", ",", "[", "]", "-", "_", "null", "None", "%00", "%zz", "%+f", "C:", "c|",
    "%", "%%", "%%%", "%25", "aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa",
];
/// Literals of the source under check, as a dictionary for the generators.
pub struct Dict { pub strs: Vec<&'static str>, pub nums: Vec<u64>, pub new_strs: Vec<&'static str>, pub new_nums: Vec<u64> }
pub fn dict() -> &'static Dict {
    static D: std::sync::OnceLock<Dict> = std::sync::OnceLock::new();
    D.get_or_init(|| {
        let v: serde_json::Value = std::env::var("REPLAY_DICT").ok().and_then(|s| serde_json::from_str(&s).ok()).unwrap_or(serde_json::Value::Null);
        let strs = |k: &str| v[k].as_array().map(|a| a.iter().filter_map(|x| x.as_str()).map(|s| leak(s.to_string())).collect()).unwrap_or_else(Vec::new);
        let nums = |k: &str| v[k].as_array().map(|a| a.iter().filter_map(|x| x.as_u64()).collect()).unwrap_or_else(Vec::new);
        Dict { strs: strs("strs"), nums: nums("nums"), new_strs: strs("new_strs"), new_nums: nums("new_nums") }
    })
}
/// A text from the dictionary, those that are new in the source preferred.
pub fn dict_str(r: &mut Rng) -> Option<&'static str> {
    let d = dict();
    if !d.new_strs.is_empty() && r.chance(1, 6) { return Some(*r.pick(&d.new_strs)); }
    if !d.strs.is_empty() && r.chance(1, 24) { return Some(*r.pick(&d.strs)); }
    None
}
/// A header line that no type here reads and that does not frame the message, from the dictionary or one that is often met.
pub fn any_line(r: &mut Rng, response: bool) -> (String, String) {
    let token = |s: &str| !s.is_empty() && s.len() < 40 && s.bytes().all(|b| b.is_ascii_alphanumeric() || b == b'-' || b == b'_');
    let (mut n, mut v) = *r.pick(if response { &[("Connection", "close"), ("Connection", "keep-alive"), ("Content-Encoding", "gzip"), ("Location", "/x"), ("Set-Cookie", "a=b"), ("Retry-After", "1"), ("Content-Type", "application/json"), ("Keep-Alive", "timeout=0"), ("ETag", "\"1\""), ("Upgrade", "h2c")][..] } else {
        &[("Connection", "close"), ("Connection", "keep-alive"), ("Expect", "100-continue"), ("Upgrade", "websocket"), ("Accept-Encoding", "gzip"), ("If-None-Match", "*"), ("Range", "bytes=0-0"), ("Authorization", "Basic x"), ("Content-Type", "application/json"), ("X-HTTP-Method-Override", "PUT"), ("X-Forwarded-For", "1.2.3.4"), ("Origin", "null"), ("TE", "trailers"), ("Cache-Control", "no-cache")][..] });
    for _ in 0..3 { if let Some(s) = dict_str(r) { if token(s) { n = s; } } }
    for _ in 0..2 { if let Some(s) = dict_str(r) { if s.len() < 60 && s.bytes().all(|b| b >= 0x20 && b < 0x7f) { v = s; } } }
    let l = n.to_lowercase();
    if ["content-length", "transfer-encoding", "x-n", "host"].contains(&l.as_str()) { n = "x-any"; }
    (if r.chance(1, 3) { n.to_lowercase() } else { n.to_string() }, v.to_string())
}
/// A number at or next to one of the dictionary.
pub fn dict_num(r: &mut Rng) -> Option<u64> {
    let d = dict();
    let n = if !d.new_nums.is_empty() && r.chance(1, 6) { *r.pick(&d.new_nums) } else if !d.nums.is_empty() && r.chance(1, 24) { *r.pick(&d.nums) } else { return None };
    Some(match r.below(6) { 0 => n.wrapping_sub(1), 1 => n.wrapping_add(1), 2 => n.wrapping_neg(), _ => n })
}
/// A length at or next to a number of the dictionary, or a usual one.
pub fn dict_len(r: &mut Rng, most: usize) -> usize {
    match dict_num(r) { Some(n) if n <= most as u64 => n as usize, _ => *r.pick(&[0usize, 1, 2, 3, 7, 8, 15, 16, 31, 32, 63, 64, 127, 128, 255, 256, 511, 512, 1023, 1024, 4096]) % (most + 1) }
}
/// A longer text, at lengths around usual limits.
pub fn gen_long(r: &mut Rng, most: usize) -> String {
    let n = dict_len(r, most);
    let alphabet: &[char] = if r.chance(1, 2) { &['a', 'b', '0'] } else { &['a', 'é', '%', ' ', '日', '/'] };
    (0..n).map(|_| *r.pick(alphabet)).collect()
}
pub fn gen_string(r: &mut Rng) -> String {
    if let Some(s) = dict_str(r) {
        return match r.below(6) {
            0 => format!("{}{}", s, gen_string(r)), 1 => format!("{}{}", gen_string(r), s), 2 => format!("a{}b", s),
            3 => s.to_uppercase(), _ => s.to_string(),
        };
    }
    match r.below(4) {
        0 | 1 => r.pick(STRINGS).to_string(),
        2 => {
            let n = r.below(6);
            (0..n).map(|_| (r.below(128) as u8) as char).collect()
        }
        _ => {
            let n = r.below(5);
            let mut s = String::new();
            for _ in 0..n {
                match r.below(3) {
                    0 => s.push_str(r.pick(STRINGS)),
                    1 => s.push(char::from_u32(r.below(0x3000) as u32).unwrap_or('x')),
                    _ => s.push(char::from_u32(r.below(0x110000) as u32).unwrap_or('y')),
                }
            }
            s
        }
    }
}
pub fn gen_atom(r: &mut Rng, k: Kind) -> Atom {
    let d = dict_num(r);
    let x = match r.below(4) {
        _ if d.is_some() => d.unwrap(),
        0 => 0,
        1 => r.next() & 0x7f,
        2 => [u64::MAX, i64::MAX as u64, i64::MIN as u64, 255, 256, 127, 128, 65535, 65536, u32::MAX as u64, 1 << 32, i32::MIN as u32 as u64][r.below(12)],
        _ => r.next(),
    };
    match k {
        Kind::Bool => Atom::Bool(x & 1 == 1 || r.chance(1, 2)), Kind::I8 => Atom::I8(x as i8), Kind::I16 => Atom::I16(x as i16),
        Kind::I32 => Atom::I32(x as i32), Kind::I64 => Atom::I64(x as i64), Kind::U8 => Atom::U8(x as u8),
        Kind::U16 => Atom::U16(x as u16), Kind::U32 => Atom::U32(x as u32), Kind::U64 => Atom::U64(x),
        Kind::F32 => Atom::F32(match r.below(4) {
            0 => *r.pick(&[0.0f32, -0.0, 1.5, -3.25, f32::MAX, f32::MIN_POSITIVE, f32::INFINITY, f32::NEG_INFINITY, f32::NAN, 0.1, 1e-45]),
            _ => { let v = f32::from_bits(x as u32); if v.is_nan() { 2.5 } else { v } }
        }),
        Kind::F64 => Atom::F64(match r.below(4) {
            0 => *r.pick(&[0.0f64, -0.0, 1.5, -3.25, f64::MAX, f64::MIN_POSITIVE, f64::INFINITY, f64::NEG_INFINITY, f64::NAN, 0.1, 5e-324]),
            _ => { let v = f64::from_bits(x); if v.is_nan() { 2.5 } else { v } }
        }),
        Kind::Str => Atom::Str(gen_string(r)),
    }
}
pub fn gen_kind(r: &mut Rng) -> Kind {
    if r.chance(1, 3) { Kind::Str } else if r.chance(1, 4) { Kind::Bool } else { *r.pick(KINDS) }
}
pub fn leak(s: String) -> &'static str {
    Box::leak(s.into_boxed_str())
}

/// Values of every kind that serde knows, by name.
#[derive(Debug, Clone, Copy, PartialEq)]
pub struct Odd(pub &'static str);
pub const SCALARS: &[(&str, &str)] = &[("bool", "true"), ("i8", "-5"), ("i16", "-6"), ("i32", "-7"), ("i64", "-8"), ("u8", "5"), ("u16", "6"), ("u32", "7"), ("u64", "8"),
    ("f32", "1.5"), ("f64", "2.5"), ("char", "c"), ("str", "s"), ("unit variant", "W"), ("newtype", "9"), ("newtype variant", "10")];
pub const NONSCALARS: &[&str] = &["bytes", "none", "some", "unit", "unit struct", "newtype of none", "newtype of unit", "newtype variant of bytes", "seq", "empty seq", "tuple", "empty tuple", "tuple struct", "tuple variant", "map", "empty map", "struct", "empty struct", "struct variant", "empty struct variant", "newtype of struct", "newtype of seq"];
impl Serialize for Odd {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        use serde::ser::*;
        match self.0 {
            "bool" => s.serialize_bool(true),
            "i8" => s.serialize_i8(-5), "i16" => s.serialize_i16(-6), "i32" => s.serialize_i32(-7), "i64" => s.serialize_i64(-8),
            "u8" => s.serialize_u8(5), "u16" => s.serialize_u16(6), "u32" => s.serialize_u32(7), "u64" => s.serialize_u64(8),
            "f32" => s.serialize_f32(1.5), "f64" => s.serialize_f64(2.5),
            "char" => s.serialize_char('c'), "str" => s.serialize_str("s"),
            "unit variant" => s.serialize_unit_variant("E", 3, "W"),
            "newtype" => s.serialize_newtype_struct("N", &9u8),
            "newtype variant" => s.serialize_newtype_variant("E", 3, "W", &10u8),
            "bytes" => s.serialize_bytes(b"by"),
            "none" => s.serialize_none(),
            "some" => s.serialize_some(&3u8),
            "unit" => s.serialize_unit(),
            "unit struct" => s.serialize_unit_struct("U"),
            "newtype of none" => s.serialize_newtype_struct("N", &Odd("none")),
            "newtype of unit" => s.serialize_newtype_struct("N", &Odd("unit")),
            "newtype variant of bytes" => s.serialize_newtype_variant("E", 1, "V", &Odd("bytes")),
            "newtype of struct" => s.serialize_newtype_struct("N", &Odd("struct")),
            "newtype of seq" => s.serialize_newtype_struct("N", &Odd("seq")),
            "seq" => { let mut t = s.serialize_seq(Some(1))?; t.serialize_element(&1u8)?; t.end() }
            "empty seq" => s.serialize_seq(Some(0))?.end(),
            "tuple" => { let mut t = s.serialize_tuple(1)?; t.serialize_element(&1u8)?; t.end() }
            "empty tuple" => s.serialize_tuple(0)?.end(),
            "tuple struct" => { let mut t = s.serialize_tuple_struct("T", 1)?; t.serialize_field(&1u8)?; t.end() }
            "tuple variant" => { let mut t = s.serialize_tuple_variant("E", 0, "V", 1)?; t.serialize_field(&1u8)?; t.end() }
            "map" => { let mut t = s.serialize_map(Some(1))?; t.serialize_entry("mk", &1u8)?; t.end() }
            "empty map" => s.serialize_map(Some(0))?.end(),
            "struct" => { let mut t = s.serialize_struct("S", 1)?; t.serialize_field("sk", &1u8)?; t.end() }
            "empty struct" => s.serialize_struct("S", 0)?.end(),
            "struct variant" => { let mut t = s.serialize_struct_variant("E", 0, "Ok", 1)?; t.serialize_field("vk", &1u8)?; t.end() }
            "empty struct variant" => s.serialize_struct_variant("E", 0, "Ok", 0)?.end(),
            k => panic!("kind {}", k),
        }
    }
}
