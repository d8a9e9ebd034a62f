//! Formats other than JSON: human readable or not, structs as sequences or as
//! maps, with or without size hints, keys as transient, borrowed or owned text
//! or as bytes.
use serde::de::{self, DeserializeOwned, DeserializeSeed, Visitor};
use serde::ser::{self, Serialize};
use std::fmt::{self, Display};

#[derive(Debug)]
pub struct Bad(pub String);
impl Display for Bad {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for Bad {}
impl ser::Error for Bad {
    fn custom<T: Display>(m: T) -> Bad {
        Bad(m.to_string())
    }
}
impl de::Error for Bad {
    fn custom<T: Display>(m: T) -> Bad {
        Bad(m.to_string())
    }
}
fn no<T>(w: &str) -> Result<T, Bad> {
    Err(Bad(format!("{w} in a value")))
}

/// What a value was written as.
#[derive(Clone, Debug)]
pub enum Node {
    Bool(bool),
    U(u64),
    I(i64),
    F32(f32),
    F64(f64),
    Str(String),
    Bytes(Vec<u8>),
    Unit,
    None,
    Some(Box<Node>),
    Seq(Vec<Node>),
    Struct(Vec<(&'static str, Node)>),
    Map(Vec<(Node, Node)>),
}

struct Ser(bool);
struct Parts(bool, Vec<Node>);
struct Fields(bool, Vec<(&'static str, Node)>);
struct Pairs(bool, Vec<(Node, Node)>, Option<Node>);
macro_rules! leaf {
    ($($f:ident $t:ty => $e:expr;)*) => { $(fn $f(self, v: $t) -> Result<Node, Bad> { let g: fn($t) -> Node = $e; Ok(g(v)) })* };
}
impl ser::Serializer for Ser {
    type Ok = Node;
    type Error = Bad;
    type SerializeSeq = Parts;
    type SerializeTuple = Parts;
    type SerializeTupleStruct = Parts;
    type SerializeTupleVariant = Parts;
    type SerializeMap = Pairs;
    type SerializeStruct = Fields;
    type SerializeStructVariant = Fields;
    fn is_human_readable(&self) -> bool {
        self.0
    }
    leaf! {
        serialize_bool bool => |v| Node::Bool(v);
        serialize_u8 u8 => |v| Node::U(v as u64);
        serialize_u16 u16 => |v| Node::U(v as u64);
        serialize_u32 u32 => |v| Node::U(v as u64);
        serialize_u64 u64 => |v| Node::U(v);
        serialize_i8 i8 => |v| Node::I(v as i64);
        serialize_i16 i16 => |v| Node::I(v as i64);
        serialize_i32 i32 => |v| Node::I(v as i64);
        serialize_i64 i64 => |v| Node::I(v);
        serialize_f32 f32 => |v| Node::F32(v);
        serialize_f64 f64 => |v| Node::F64(v);
        serialize_char char => |v| Node::Str(v.to_string());
        serialize_str &str => |v| Node::Str(v.into());
        serialize_bytes &[u8] => |v| Node::Bytes(v.to_vec());
    }
    fn serialize_none(self) -> Result<Node, Bad> {
        Ok(Node::None)
    }
    fn serialize_some<T: Serialize + ?Sized>(self, v: &T) -> Result<Node, Bad> {
        Ok(Node::Some(Box::new(v.serialize(self)?)))
    }
    fn serialize_unit(self) -> Result<Node, Bad> {
        Ok(Node::Unit)
    }
    fn serialize_unit_struct(self, _: &'static str) -> Result<Node, Bad> {
        Ok(Node::Unit)
    }
    fn serialize_unit_variant(self, _: &'static str, _: u32, v: &'static str) -> Result<Node, Bad> {
        Ok(Node::Str(v.into()))
    }
    fn serialize_newtype_struct<T: Serialize + ?Sized>(self, _: &'static str, v: &T) -> Result<Node, Bad> {
        v.serialize(self)
    }
    fn serialize_newtype_variant<T: Serialize + ?Sized>(self, _: &'static str, _: u32, _: &'static str, _: &T) -> Result<Node, Bad> {
        no("variant")
    }
    fn serialize_seq(self, _: Option<usize>) -> Result<Parts, Bad> {
        Ok(Parts(self.0, vec![]))
    }
    fn serialize_tuple(self, _: usize) -> Result<Parts, Bad> {
        Ok(Parts(self.0, vec![]))
    }
    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<Parts, Bad> {
        Ok(Parts(self.0, vec![]))
    }
    fn serialize_tuple_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Parts, Bad> {
        no("variant")
    }
    fn serialize_map(self, _: Option<usize>) -> Result<Pairs, Bad> {
        Ok(Pairs(self.0, vec![], None))
    }
    fn serialize_struct(self, _: &'static str, _: usize) -> Result<Fields, Bad> {
        Ok(Fields(self.0, vec![]))
    }
    fn serialize_struct_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Fields, Bad> {
        no("variant")
    }
}
macro_rules! parts {
    ($($t:ident $f:ident),*) => { $(impl ser::$t for Parts {
        type Ok = Node;
        type Error = Bad;
        fn $f<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), Bad> {
            self.1.push(v.serialize(Ser(self.0))?);
            Ok(())
        }
        fn end(self) -> Result<Node, Bad> { Ok(Node::Seq(self.1)) }
    })* };
}
parts!(SerializeSeq serialize_element, SerializeTuple serialize_element, SerializeTupleStruct serialize_field, SerializeTupleVariant serialize_field);
macro_rules! fields {
    ($($t:ident),*) => { $(impl ser::$t for Fields {
        type Ok = Node;
        type Error = Bad;
        fn serialize_field<T: Serialize + ?Sized>(&mut self, k: &'static str, v: &T) -> Result<(), Bad> {
            self.1.push((k, v.serialize(Ser(self.0))?));
            Ok(())
        }
        fn end(self) -> Result<Node, Bad> { Ok(Node::Struct(self.1)) }
    })* };
}
fields!(SerializeStruct, SerializeStructVariant);
impl ser::SerializeMap for Pairs {
    type Ok = Node;
    type Error = Bad;
    fn serialize_key<T: Serialize + ?Sized>(&mut self, k: &T) -> Result<(), Bad> {
        self.2 = Some(k.serialize(Ser(self.0))?);
        Ok(())
    }
    fn serialize_value<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), Bad> {
        let k = self.2.take().ok_or(Bad("value without key".into()))?;
        self.1.push((k, v.serialize(Ser(self.0))?));
        Ok(())
    }
    fn end(self) -> Result<Node, Bad> {
        Ok(Node::Map(self.1))
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Keys {
    /// structs are sequences
    None,
    Transient,
    Borrowed,
    Owned,
    Bytes,
}
#[derive(Clone, Copy, Debug)]
pub struct Fmt {
    pub human: bool,
    pub hints: bool,
    pub keys: Keys,
}
pub fn all() -> Vec<Fmt> {
    let mut v = vec![];
    for human in [true, false] {
        for hints in [true, false] {
            for keys in [Keys::None, Keys::Transient, Keys::Borrowed, Keys::Owned, Keys::Bytes] {
                v.push(Fmt { human, hints, keys });
            }
        }
    }
    v
}
pub fn write<T: Serialize>(x: &T, human: bool) -> Result<Node, Bad> {
    x.serialize(Ser(human))
}
pub fn read<T: DeserializeOwned>(n: &Node, f: Fmt) -> Result<T, Bad> {
    T::deserialize(De(n, f))
}

struct De<'a>(&'a Node, Fmt);
struct Key(&'static str, Fmt);
struct SeqA<'a>(Vec<&'a Node>, usize, Fmt);
struct MapA<'a>(&'a [(&'static str, Node)], usize, Fmt);
struct PairA<'a>(&'a [(Node, Node)], usize, Fmt);
impl<'de, 'a> de::SeqAccess<'de> for SeqA<'a> {
    type Error = Bad;
    fn next_element_seed<T: DeserializeSeed<'de>>(&mut self, s: T) -> Result<Option<T::Value>, Bad> {
        let Some(n) = self.0.get(self.1) else { return Ok(None) };
        self.1 += 1;
        s.deserialize(De(n, self.2)).map(Some)
    }
    fn size_hint(&self) -> Option<usize> {
        if self.2.hints {
            Some(self.0.len() - self.1)
        } else {
            None
        }
    }
}
impl<'de, 'a> de::MapAccess<'de> for MapA<'a> {
    type Error = Bad;
    fn next_key_seed<K: DeserializeSeed<'de>>(&mut self, s: K) -> Result<Option<K::Value>, Bad> {
        let Some(n) = self.0.get(self.1) else { return Ok(None) };
        s.deserialize(Key(n.0, self.2)).map(Some)
    }
    fn next_value_seed<V: DeserializeSeed<'de>>(&mut self, s: V) -> Result<V::Value, Bad> {
        self.1 += 1;
        s.deserialize(De(&self.0[self.1 - 1].1, self.2))
    }
    fn size_hint(&self) -> Option<usize> {
        if self.2.hints {
            Some(self.0.len() - self.1)
        } else {
            None
        }
    }
}
impl<'de, 'a> de::MapAccess<'de> for PairA<'a> {
    type Error = Bad;
    fn next_key_seed<K: DeserializeSeed<'de>>(&mut self, s: K) -> Result<Option<K::Value>, Bad> {
        let Some(n) = self.0.get(self.1) else { return Ok(None) };
        s.deserialize(De(&n.0, self.2)).map(Some)
    }
    fn next_value_seed<V: DeserializeSeed<'de>>(&mut self, s: V) -> Result<V::Value, Bad> {
        self.1 += 1;
        s.deserialize(De(&self.0[self.1 - 1].1, self.2))
    }
}
impl<'de> de::Deserializer<'de> for Key {
    type Error = Bad;
    fn is_human_readable(&self) -> bool {
        self.1.human
    }
    fn deserialize_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Bad> {
        match self.1.keys {
            Keys::Borrowed => v.visit_borrowed_str(self.0),
            Keys::Owned => v.visit_string(self.0.into()),
            Keys::Bytes => v.visit_bytes(self.0.as_bytes()),
            _ => v.visit_str(&self.0.to_string()),
        }
    }
    serde::forward_to_deserialize_any! { bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf option unit unit_struct newtype_struct seq tuple tuple_struct map struct enum identifier ignored_any }
}
impl<'de, 'a> de::Deserializer<'de> for De<'a> {
    type Error = Bad;
    fn is_human_readable(&self) -> bool {
        self.1.human
    }
    fn deserialize_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Bad> {
        let f = self.1;
        match self.0 {
            Node::Bool(x) => v.visit_bool(*x),
            Node::U(x) => v.visit_u64(*x),
            Node::I(x) => v.visit_i64(*x),
            Node::F32(x) => v.visit_f32(*x),
            Node::F64(x) => v.visit_f64(*x),
            Node::Str(x) => v.visit_str(x),
            Node::Bytes(x) => v.visit_bytes(x),
            Node::Unit => v.visit_unit(),
            Node::None => v.visit_none(),
            Node::Some(x) => v.visit_some(De(x, f)),
            Node::Seq(x) => v.visit_seq(SeqA(x.iter().collect(), 0, f)),
            Node::Struct(x) if f.keys == Keys::None => v.visit_seq(SeqA(x.iter().map(|y| &y.1).collect(), 0, f)),
            Node::Struct(x) => v.visit_map(MapA(x, 0, f)),
            Node::Map(x) => v.visit_map(PairA(x, 0, f)),
        }
    }
    fn deserialize_newtype_struct<V: Visitor<'de>>(self, _: &'static str, v: V) -> Result<V::Value, Bad> {
        v.visit_newtype_struct(self)
    }
    fn deserialize_option<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Bad> {
        match self.0 {
            Node::None => v.visit_none(),
            Node::Some(x) => v.visit_some(De(x, self.1)),
            _ => v.visit_some(self),
        }
    }
    serde::forward_to_deserialize_any! { bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf unit unit_struct seq tuple tuple_struct map struct enum identifier ignored_any }
}

/// The value with an outer field left out, given twice or added, or the
/// sequence cut short.
pub fn malformed(n: &Node, f: Fmt, strict: bool) -> Vec<(String, Node)> {
    let mut out = vec![];
    let Node::Struct(v) = n else { return out };
    for i in 0..v.len() {
        if f.keys == Keys::None {
            out.push((format!("{i} of {} elements", v.len()), Node::Struct(v[..i].to_vec())));
            continue;
        }
        let mut w = v.clone();
        let x = w.remove(i);
        out.push((format!("no {}", x.0), Node::Struct(w)));
        for j in 0..=v.len() {
            let mut w = v.clone();
            w.insert(j, v[i].clone());
            out.push((format!("{} twice", v[i].0), Node::Struct(w)));
        }
    }
    if strict && f.keys != Keys::None {
        for j in 0..=v.len() {
            let mut w = v.clone();
            w.insert(j, ("surplus", Node::U(0)));
            out.push(("an unknown field".into(), Node::Struct(w)));
        }
    }
    out
}
