//! Types made at run time: a schema stands for a Rust type, and values of it
//! are serialized and deserialized with exactly the serde calls that the
//! derives and the standard library's implementations make for that type.

use crate::engine::Src;
use crate::gen_tree;
use serde::de::{self, DeserializeSeed, Deserializer, EnumAccess, MapAccess, SeqAccess, VariantAccess, Visitor};
use serde::ser::{self, SerializeMap, SerializeSeq, SerializeStruct, SerializeStructVariant, SerializeTuple, SerializeTupleVariant, Serializer};
use serde::{Deserialize, Serialize};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fmt;
use std::sync::Mutex;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum IntKind {
    I8,
    I16,
    I32,
    I64,
    U8,
    U16,
    U32,
    U64,
    I128,
    /// (up to what a KDL integer can be)
    U128,
}
pub const INTS: [IntKind; 10] = [IntKind::I32, IntKind::U16, IntKind::I64, IntKind::U64, IntKind::U8, IntKind::I8, IntKind::I16, IntKind::U32, IntKind::I128, IntKind::U128];
impl IntKind {
    pub fn range(self) -> (i128, i128) {
        use IntKind::*;
        match self {
            I8 => (i8::MIN as i128, i8::MAX as i128),
            I16 => (i16::MIN as i128, i16::MAX as i128),
            I32 => (i32::MIN as i128, i32::MAX as i128),
            I64 => (i64::MIN as i128, i64::MAX as i128),
            U8 => (0, u8::MAX as i128),
            U16 => (0, u16::MAX as i128),
            U32 => (0, u32::MAX as i128),
            U64 => (0, u64::MAX as i128),
            I128 => (i128::MIN, i128::MAX),
            U128 => (0, i128::MAX),
        }
    }
}

#[derive(Clone, Debug)]
pub enum Sch {
    Bool,
    Int(IntKind),
    F32,
    F64,
    Char,
    Str,
    Opt(Box<Sch>),
    New(Box<Sch>),
    /// element, least length
    Seq(Box<Sch>, usize),
    Tup(Vec<Sch>),
    Map(Box<Sch>),
    Struct(StructSch),
    Enum(EnumSch),
    /// self-describing (`deserialize_any`)
    Any,
}

#[derive(Clone, Debug)]
pub struct StructSch {
    pub fields: &'static [&'static str],
    pub types: Vec<Sch>,
    /// `#[serde(deny_unknown_fields)]`
    pub deny: bool,
}

#[derive(Clone, Debug)]
pub struct EnumSch {
    pub names: &'static [&'static str],
    pub vars: Vec<Var>,
}

#[derive(Clone, Debug)]
pub enum Var {
    Unit,
    New(Sch),
    Tup(Vec<Sch>),
    Struct(StructSch),
}

#[derive(Clone, Debug)]
pub enum V {
    Bool(bool),
    Int(i128),
    F32(f32),
    F64(f64),
    Char(char),
    Str(String),
    None,
    Some(Box<V>),
    New(Box<V>),
    Seq(Vec<V>),
    Map(BTreeMap<String, V>),
    /// in the order of the fields
    Struct(Vec<V>),
    /// variant, content (nothing, one value, elements, or fields)
    Enum(usize, Vec<V>),
    Unit,
}

impl PartialEq for V {
    fn eq(&self, o: &V) -> bool {
        use V::*;
        match (self, o) {
            (Bool(a), Bool(b)) => a == b,
            (Int(a), Int(b)) => a == b,
            (F32(a), F32(b)) => a.to_bits() == b.to_bits() || a.is_nan() && b.is_nan(),
            (F64(a), F64(b)) => a.to_bits() == b.to_bits() || a.is_nan() && b.is_nan(),
            (Char(a), Char(b)) => a == b,
            (Str(a), Str(b)) => a == b,
            (None, None) | (Unit, Unit) => true,
            (Some(a), Some(b)) | (New(a), New(b)) => a == b,
            (Seq(a), Seq(b)) | (Struct(a), Struct(b)) => a == b,
            (Map(a), Map(b)) => a == b,
            (Enum(i, a), Enum(j, b)) => i == j && a == b,
            _ => false,
        }
    }
}

// ---- names ----

/// Field and variant names have to live forever.
pub fn names(v: &[&str]) -> &'static [&'static str] {
    static SEEN: Mutex<Option<HashSet<&'static [&'static str]>>> = Mutex::new(None);
    static STR: Mutex<Option<HashSet<&'static str>>> = Mutex::new(None);
    let mut s = STR.lock().unwrap();
    let s = s.get_or_insert_with(HashSet::new);
    let v: Vec<&'static str> = v
        .iter()
        .map(|n| match s.get::<str>(n) {
            Some(n) => *n,
            None => {
                let n: &'static str = Box::leak(n.to_string().into_boxed_str());
                s.insert(n);
                n
            }
        })
        .collect();
    let mut seen = SEEN.lock().unwrap();
    let seen = seen.get_or_insert_with(HashSet::new);
    if let Some(n) = seen.get::<[&'static str]>(v.as_slice()) {
        return n;
    }
    let n: &'static [&'static str] = Box::leak(v.into_boxed_slice());
    seen.insert(n);
    n
}

pub const FIELD_NAMES: &[&str] = &["a", "b", "name", "port", "kebab-case", "is_on", "with space", "é", "true", "", "-", "x=y", "\"", "1"];
pub const VARIANTS: &[&str] = &["Red", "Green", "Go", "kebab-case", "with space", "true", "", "-", "日"];

/// Distinct names.
pub fn some_names(s: &mut Src, pool: &[&'static str], n: usize) -> Vec<&'static str> {
    let mut out: Vec<&'static str> = vec![];
    let plain = s.chance(2, 3);
    while out.len() < n {
        let k = if plain { pool.len().min(6) } else { pool.len() };
        let mut c = pool[s.below(k as u32) as usize];
        if out.contains(&c) {
            c = pool.iter().find(|c| !out.contains(c)).expect("enough names");
        }
        out.push(c);
    }
    out
}

// ---- values ----

/// A value of the schema.
pub fn value(s: &mut Src, sch: &Sch) -> V {
    match sch {
        Sch::Bool => V::Bool(s.chance(1, 2)),
        Sch::Int(k) => V::Int(int(s, *k)),
        Sch::F32 => V::F32(if s.chance(1, 4) { f32::from_bits(s.u64() as u32) } else { gen_tree::float(s) as f32 }),
        Sch::F64 => V::F64(gen_tree::float(s)),
        Sch::Char => V::Char(gen_tree::chars_string(s, 3).chars().next().unwrap_or('x')),
        Sch::Str => V::Str(gen_tree::string(s)),
        Sch::Opt(t) => {
            if s.chance(2, 3) {
                V::Some(Box::new(value(s, t)))
            } else {
                V::None
            }
        }
        Sch::New(t) => V::New(Box::new(value(s, t))),
        Sch::Seq(t, min) => {
            let mut v = vec![];
            while v.len() < *min || (v.len() < 5 && s.chance(3, 5)) {
                v.push(value(s, t));
            }
            V::Seq(v)
        }
        Sch::Tup(ts) => V::Seq(ts.iter().map(|t| value(s, t)).collect()),
        Sch::Map(t) => {
            let mut m = BTreeMap::new();
            while m.len() < 4 && s.chance(3, 5) {
                let k = if s.chance(1, 2) { gen_tree::string(s) } else { s.pick(FIELD_NAMES).to_string() };
                m.insert(k, value(s, t));
            }
            V::Map(m)
        }
        Sch::Struct(st) => V::Struct(st.types.iter().map(|t| value(s, t)).collect()),
        Sch::Enum(e) => {
            let i = s.below(e.vars.len() as u32) as usize;
            V::Enum(
                i,
                match &e.vars[i] {
                    Var::Unit => vec![],
                    Var::New(t) => vec![value(s, t)],
                    Var::Tup(ts) => ts.iter().map(|t| value(s, t)).collect(),
                    Var::Struct(st) => st.types.iter().map(|t| value(s, t)).collect(),
                },
            )
        }
        Sch::Any => V::Unit,
    }
}

fn int(s: &mut Src, k: IntKind) -> i128 {
    let (lo, hi) = k.range();
    match s.below(5) {
        0 | 1 => (s.below(100) as i128).clamp(lo, hi),
        2 => (-(s.below(100) as i128)).clamp(lo, hi),
        3 => *s.pick(&[lo, hi, hi - 1, lo + 1]),
        _ => {
            let w = hi.abs_diff(lo).saturating_add(1);
            let r = if w > u64::MAX as u128 { (s.u64() as u128) << 64 | s.u64() as u128 } else { s.u64() as u128 };
            lo.wrapping_add((r % w) as i128)
        }
    }
}

// ---- serialization ----

#[derive(Clone, Copy)]
pub struct Ser<'a>(pub &'a Sch, pub &'a V);

impl Serialize for Ser<'_> {
    fn serialize<S: Serializer>(&self, z: S) -> Result<S::Ok, S::Error> {
        match (self.0, self.1) {
            (Sch::Bool, V::Bool(b)) => z.serialize_bool(*b),
            (Sch::Int(k), V::Int(i)) => match k {
                IntKind::I8 => z.serialize_i8(*i as i8),
                IntKind::I16 => z.serialize_i16(*i as i16),
                IntKind::I32 => z.serialize_i32(*i as i32),
                IntKind::I64 => z.serialize_i64(*i as i64),
                IntKind::U8 => z.serialize_u8(*i as u8),
                IntKind::U16 => z.serialize_u16(*i as u16),
                IntKind::U32 => z.serialize_u32(*i as u32),
                IntKind::U64 => z.serialize_u64(*i as u64),
                IntKind::I128 => z.serialize_i128(*i),
                IntKind::U128 => z.serialize_u128(*i as u128),
            },
            (Sch::F32, V::F32(f)) => z.serialize_f32(*f),
            (Sch::F64, V::F64(f)) => z.serialize_f64(*f),
            (Sch::Char, V::Char(c)) => z.serialize_char(*c),
            (Sch::Str, V::Str(s)) => z.serialize_str(s),
            (Sch::Opt(_), V::None) => z.serialize_none(),
            (Sch::Opt(t), V::Some(v)) => z.serialize_some(&Ser(t, v)),
            (Sch::New(t), V::New(v)) => z.serialize_newtype_struct("N", &Ser(t, v)),
            (Sch::Seq(t, _), V::Seq(v)) => {
                let mut q = z.serialize_seq(Some(v.len()))?;
                for v in v {
                    q.serialize_element(&Ser(t, v))?;
                }
                q.end()
            }
            (Sch::Tup(ts), V::Seq(v)) => {
                let mut q = z.serialize_tuple(v.len())?;
                for (t, v) in ts.iter().zip(v) {
                    q.serialize_element(&Ser(t, v))?;
                }
                q.end()
            }
            (Sch::Map(t), V::Map(m)) => {
                let mut q = z.serialize_map(Some(m.len()))?;
                for (k, v) in m {
                    q.serialize_entry(k, &Ser(t, v))?;
                }
                q.end()
            }
            (Sch::Struct(st), V::Struct(v)) => {
                let mut q = z.serialize_struct("S", v.len())?;
                for ((f, t), v) in st.fields.iter().zip(&st.types).zip(v) {
                    q.serialize_field(f, &Ser(t, v))?;
                }
                q.end()
            }
            (Sch::Enum(e), V::Enum(i, v)) => {
                let name = e.names[*i];
                let ix = *i as u32;
                match &e.vars[*i] {
                    Var::Unit => z.serialize_unit_variant("E", ix, name),
                    Var::New(t) => z.serialize_newtype_variant("E", ix, name, &Ser(t, &v[0])),
                    Var::Tup(ts) => {
                        let mut q = z.serialize_tuple_variant("E", ix, name, v.len())?;
                        for (t, v) in ts.iter().zip(v) {
                            q.serialize_field(&Ser(t, v))?;
                        }
                        q.end()
                    }
                    Var::Struct(st) => {
                        let mut q = z.serialize_struct_variant("E", ix, name, v.len())?;
                        for ((f, t), v) in st.fields.iter().zip(&st.types).zip(v) {
                            q.serialize_field(f, &Ser(t, v))?;
                        }
                        q.end()
                    }
                }
            }
            (s, v) => Err(ser::Error::custom(format!("harness: {v:?} is no {s:?}"))),
        }
    }
}

// ---- deserialization ----

thread_local! {
    static ROOT: RefCell<Option<Sch>> = const { RefCell::new(None) };
}

/// Deserializes with the schema set by [`with_root`].
pub struct Dyn(pub V);

impl<'de> Deserialize<'de> for Dyn {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        let root = ROOT.with(|r| r.borrow().clone()).expect("root schema");
        De(&root).deserialize(d).map(Dyn)
    }
}

pub fn with_root<T>(sch: &Sch, f: impl FnOnce() -> T) -> T {
    ROOT.with(|r| *r.borrow_mut() = Some(sch.clone()));
    f()
}

#[derive(Clone, Copy)]
struct De<'a>(&'a Sch);

impl<'de> DeserializeSeed<'de> for De<'_> {
    type Value = V;
    fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<V, D::Error> {
        match self.0 {
            Sch::Bool => bool::deserialize(d).map(V::Bool),
            Sch::Int(k) => match k {
                IntKind::I8 => i8::deserialize(d).map(|i| i as i128),
                IntKind::I16 => i16::deserialize(d).map(|i| i as i128),
                IntKind::I32 => i32::deserialize(d).map(|i| i as i128),
                IntKind::I64 => i64::deserialize(d).map(|i| i as i128),
                IntKind::U8 => u8::deserialize(d).map(|i| i as i128),
                IntKind::U16 => u16::deserialize(d).map(|i| i as i128),
                IntKind::U32 => u32::deserialize(d).map(|i| i as i128),
                IntKind::U64 => u64::deserialize(d).map(|i| i as i128),
                IntKind::I128 => i128::deserialize(d),
                IntKind::U128 => u128::deserialize(d).map(|i| i as i128),
            }
            .map(V::Int),
            Sch::F32 => f32::deserialize(d).map(V::F32),
            Sch::F64 => f64::deserialize(d).map(V::F64),
            Sch::Char => char::deserialize(d).map(V::Char),
            Sch::Str => String::deserialize(d).map(V::Str),
            Sch::Opt(_) => d.deserialize_option(Vis(self.0)),
            Sch::New(_) => d.deserialize_newtype_struct("N", Vis(self.0)),
            Sch::Seq(..) => d.deserialize_seq(Vis(self.0)),
            Sch::Tup(ts) => d.deserialize_tuple(ts.len(), Vis(self.0)),
            Sch::Map(_) => d.deserialize_map(Vis(self.0)),
            Sch::Struct(st) => d.deserialize_struct("S", st.fields, StructVis(st)),
            Sch::Enum(e) => d.deserialize_enum("E", e.names, EnumVis(e)),
            Sch::Any => d.deserialize_any(AnyVis),
        }
    }
}

struct Vis<'a>(&'a Sch);

impl<'de> Visitor<'de> for Vis<'_> {
    type Value = V;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str(match self.0 {
            Sch::Opt(_) => "option",
            Sch::New(_) => "tuple struct N",
            Sch::Seq(..) => "a sequence",
            Sch::Tup(_) => "a tuple",
            _ => "a map",
        })
    }
    fn visit_unit<E: de::Error>(self) -> Result<V, E> {
        match self.0 {
            Sch::Opt(_) => Ok(V::None),
            _ => Err(E::invalid_type(de::Unexpected::Unit, &self)),
        }
    }
    fn visit_none<E: de::Error>(self) -> Result<V, E> {
        match self.0 {
            Sch::Opt(_) => Ok(V::None),
            _ => Err(E::invalid_type(de::Unexpected::Option, &self)),
        }
    }
    fn visit_some<D: Deserializer<'de>>(self, d: D) -> Result<V, D::Error> {
        match self.0 {
            Sch::Opt(t) => De(t).deserialize(d).map(|v| V::Some(Box::new(v))),
            _ => Err(de::Error::invalid_type(de::Unexpected::Option, &self)),
        }
    }
    fn visit_newtype_struct<D: Deserializer<'de>>(self, d: D) -> Result<V, D::Error> {
        match self.0 {
            Sch::New(t) => De(t).deserialize(d).map(|v| V::New(Box::new(v))),
            _ => Err(de::Error::invalid_type(de::Unexpected::NewtypeStruct, &self)),
        }
    }
    fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<V, A::Error> {
        match self.0 {
            Sch::New(t) => match a.next_element_seed(De(t))? {
                Some(v) => Ok(V::New(Box::new(v))),
                None => Err(de::Error::invalid_length(0, &"tuple struct N with 1 element")),
            },
            Sch::Seq(t, _) => {
                let mut out = vec![];
                while let Some(v) = a.next_element_seed(De(t))? {
                    out.push(v);
                }
                Ok(V::Seq(out))
            }
            Sch::Tup(ts) => {
                let mut out = vec![];
                for (i, t) in ts.iter().enumerate() {
                    match a.next_element_seed(De(t))? {
                        Some(v) => out.push(v),
                        None => return Err(de::Error::invalid_length(i, &self)),
                    }
                }
                Ok(V::Seq(out))
            }
            _ => Err(de::Error::invalid_type(de::Unexpected::Seq, &self)),
        }
    }
    fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<V, A::Error> {
        match self.0 {
            Sch::Map(t) => {
                let mut out = BTreeMap::new();
                while let Some(k) = a.next_key::<String>()? {
                    out.insert(k, a.next_value_seed(De(t))?);
                }
                Ok(V::Map(out))
            }
            _ => Err(de::Error::invalid_type(de::Unexpected::Map, &self)),
        }
    }
}

/// The index of a name.
struct Ident {
    names: &'static [&'static str],
    /// unknown names are an error
    strict: bool,
    what: &'static str,
}
impl<'de> DeserializeSeed<'de> for Ident {
    type Value = Option<usize>;
    fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<Self::Value, D::Error> {
        d.deserialize_identifier(self)
    }
}
impl<'de> Visitor<'de> for Ident {
    type Value = Option<usize>;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "{} identifier", self.what)
    }
    fn visit_u64<E: de::Error>(self, i: u64) -> Result<Self::Value, E> {
        if (i as usize) < self.names.len() { Ok(Some(i as usize)) } else { Ok(None) }
    }
    fn visit_str<E: de::Error>(self, s: &str) -> Result<Self::Value, E> {
        match self.names.iter().position(|n| *n == s) {
            Some(i) => Ok(Some(i)),
            None if !self.strict => Ok(None),
            None if self.what == "variant" => Err(E::unknown_variant(s, self.names)),
            None => Err(E::unknown_field(s, self.names)),
        }
    }
}

struct StructVis<'a>(&'a StructSch);
impl<'de> Visitor<'de> for StructVis<'_> {
    type Value = V;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("struct S")
    }
    fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<V, A::Error> {
        let mut out = vec![];
        for (i, t) in self.0.types.iter().enumerate() {
            match a.next_element_seed(De(t))? {
                Some(v) => out.push(v),
                None => return Err(de::Error::invalid_length(i, &"struct S")),
            }
        }
        Ok(V::Struct(out))
    }
    fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<V, A::Error> {
        let st = self.0;
        let mut got: Vec<Option<V>> = vec![None; st.fields.len()];
        while let Some(k) = a.next_key_seed(Ident { names: st.fields, strict: st.deny, what: "field" })? {
            match k {
                Some(i) => {
                    if got[i].is_some() {
                        return Err(de::Error::duplicate_field(st.fields[i]));
                    }
                    got[i] = Some(a.next_value_seed(De(&st.types[i]))?);
                }
                None => {
                    a.next_value::<de::IgnoredAny>()?;
                }
            }
        }
        let mut out = vec![];
        for (i, g) in got.into_iter().enumerate() {
            out.push(match g {
                Some(v) => v,
                None => De(&st.types[i]).deserialize(Missing(st.fields[i], std::marker::PhantomData))?,
            });
        }
        Ok(V::Struct(out))
    }
}

/// What serde's derives do with a field that is not there.
struct Missing<E>(&'static str, std::marker::PhantomData<E>);
impl<'de, E: de::Error> Deserializer<'de> for Missing<E> {
    type Error = E;
    fn deserialize_any<W: Visitor<'de>>(self, _: W) -> Result<W::Value, E> {
        Err(E::missing_field(self.0))
    }
    fn deserialize_option<W: Visitor<'de>>(self, v: W) -> Result<W::Value, E> {
        v.visit_none()
    }
    serde::forward_to_deserialize_any! {
        bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string
        bytes byte_buf unit unit_struct newtype_struct seq tuple
        tuple_struct map struct enum identifier ignored_any
    }
}

struct EnumVis<'a>(&'a EnumSch);
impl<'de> Visitor<'de> for EnumVis<'_> {
    type Value = V;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("enum E")
    }
    fn visit_enum<A: EnumAccess<'de>>(self, a: A) -> Result<V, A::Error> {
        let e = self.0;
        let (i, va) = a.variant_seed(Ident { names: e.names, strict: true, what: "variant" })?;
        let i = i.ok_or_else(|| de::Error::custom("variant index out of range"))?;
        let inner = match &e.vars[i] {
            Var::Unit => {
                va.unit_variant()?;
                vec![]
            }
            Var::New(t) => vec![va.newtype_variant_seed(De(t))?],
            Var::Tup(ts) => match va.tuple_variant(ts.len(), Vis(&Sch::Tup(ts.clone())))? {
                V::Seq(v) => v,
                _ => unreachable!(),
            },
            Var::Struct(st) => match va.struct_variant(st.fields, StructVis(st))? {
                V::Struct(v) => v,
                _ => unreachable!(),
            },
        };
        Ok(V::Enum(i, inner))
    }
}

struct AnyVis;
struct AnySeed;
impl<'de> DeserializeSeed<'de> for AnySeed {
    type Value = V;
    fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<V, D::Error> {
        d.deserialize_any(AnyVis)
    }
}
impl<'de> Visitor<'de> for AnyVis {
    type Value = V;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("anything")
    }
    fn visit_bool<E>(self, b: bool) -> Result<V, E> {
        Ok(V::Bool(b))
    }
    fn visit_i64<E>(self, i: i64) -> Result<V, E> {
        Ok(V::Int(i as i128))
    }
    fn visit_u64<E>(self, i: u64) -> Result<V, E> {
        Ok(V::Int(i as i128))
    }
    fn visit_i128<E>(self, i: i128) -> Result<V, E> {
        Ok(V::Int(i))
    }
    fn visit_f64<E>(self, f: f64) -> Result<V, E> {
        Ok(V::F64(f))
    }
    fn visit_str<E>(self, s: &str) -> Result<V, E> {
        Ok(V::Str(s.to_string()))
    }
    fn visit_unit<E>(self) -> Result<V, E> {
        Ok(V::Unit)
    }
    fn visit_none<E>(self) -> Result<V, E> {
        Ok(V::None)
    }
    fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<V, A::Error> {
        let mut out = vec![];
        while let Some(v) = a.next_element_seed(AnySeed)? {
            out.push(v);
        }
        Ok(V::Seq(out))
    }
    fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<V, A::Error> {
        let mut out = BTreeMap::new();
        while let Some(k) = a.next_key::<String>()? {
            out.insert(k, a.next_value_seed(AnySeed)?);
        }
        Ok(V::Map(out))
    }
}
