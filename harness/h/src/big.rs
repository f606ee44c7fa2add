//! Values nested hundreds deep and containers of hundreds of elements: their
//! serialization, their text and bytes, and typed and untyped readers for them.
use crate::refenc::{dec, Flavour};
use crate::sym;
use crate::util::Out;
use core::fmt;
use serde::de::{self, Deserialize, DeserializeSeed, Deserializer, EnumAccess, MapAccess, SeqAccess, VariantAccess, Visitor};
use serde::ser::{Serialize, SerializeMap, SerializeSeq, SerializeStruct, SerializeStructVariant, SerializeTuple, SerializeTupleVariant, Serializer};

pub const KINDS: usize = 8;
pub const DEPTHS: [usize; 8] = [2, 33, 64, 127, 128, 129, 255, 300];
/// `depth` containers of one kind around a number
#[derive(Clone, Copy)]
pub struct Nest { pub kind: usize, pub depth: usize, pub leaf: u8 }
impl Nest {
    pub fn any() -> Self { Nest { kind: sym::pick(KINDS), depth: DEPTHS[sym::pick(8)], leaf: sym::u8() } }
    fn kid(&self) -> Nest { Nest { depth: self.depth - 1, ..*self } }
    pub fn json<const N: usize>(&self, o: &mut Out<N>) {
        let (open, close): (&[u8], &[u8]) = match self.kind {
            0 | 1 => (b"[", b"]"),
            2 => (b"{\"k\":", b"}"),
            3 => (b"{\"f\":", b"}"),
            4 => (b"{\"N\":", b"}"),
            5 => (b"{\"T\":[", b"]}"),
            6 => (b"{\"V\":{\"f\":", b"}}"),
            _ => (b"[", b"]"),
        };
        for _ in 0..self.depth { o.put(open) }
        dec(o, false, self.leaf as u64);
        for _ in 0..self.depth { o.put(close) }
    }
    pub fn mp<const N: usize>(&self, o: &mut Out<N>, f: Flavour) {
        let named = matches!(f, Flavour::Named);
        let fields: &[u8] = match f { Flavour::Compact => &[0x91], Flavour::Index => &[0x81, 0], Flavour::Named => &[0x81, 0xa1, b'f'] };
        let mut variant = |o: &mut Out<N>, i: u8, n: u8| { o.push(0x81); if named { o.put(&[0xa1, n]) } else { o.push(i) } };
        for _ in 0..self.depth {
            match self.kind {
                0 | 1 => o.push(0x91),
                2 => o.put(&[0x81, 0xa1, b'k']),
                3 => o.put(fields),
                4 => variant(o, 0, b'N'),
                5 => { variant(o, 1, b'T'); o.push(0x91) }
                6 => { variant(o, 2, b'V'); o.put(fields) }
                _ => o.push(0x91),
            }
        }
        if self.leaf > 127 { o.push(0xcc) }
        o.push(self.leaf)
    }
}
impl Serialize for Nest {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        if self.depth == 0 { return s.serialize_u8(self.leaf) }
        let kid = self.kid();
        match self.kind {
            0 => { let mut q = s.serialize_seq(Some(1))?; q.serialize_element(&kid)?; q.end() }
            1 => { let mut q = s.serialize_tuple(1)?; q.serialize_element(&kid)?; q.end() }
            2 => { let mut q = s.serialize_map(Some(1))?; q.serialize_entry("k", &kid)?; q.end() }
            3 => { let mut q = s.serialize_struct("S", 1)?; q.serialize_field("f", &kid)?; q.end() }
            4 => s.serialize_newtype_variant("E", 0, "N", &kid),
            5 => { let mut q = s.serialize_tuple_variant("E", 1, "T", 1)?; q.serialize_field(&kid)?; q.end() }
            6 => { let mut q = s.serialize_struct_variant("E", 2, "V", 1)?; q.serialize_field("f", &kid)?; q.end() }
            // options around sequences
            _ => s.serialize_some(&Seq(kid)),
        }
    }
}
struct Seq(Nest);
impl Serialize for Seq {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { let mut q = s.serialize_seq(Some(1))?; q.serialize_element(&self.0)?; q.end() }
}
/// reads what `Nest` wrote, through the typed methods or without a hint
#[derive(Clone, Copy)]
pub struct Reader { pub kind: usize, pub depth: usize, pub any: bool }
impl Reader {
    fn kid(&self) -> Reader { Reader { depth: self.depth - 1, ..*self } }
}
struct Name;
impl<'de> DeserializeSeed<'de> for Name {
    type Value = u8;
    fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<u8, D::Error> { d.deserialize_identifier(Name) }
}
impl<'de> Visitor<'de> for Name {
    type Value = u8;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str("a name") }
    fn visit_u64<E: de::Error>(self, v: u64) -> Result<u8, E> { Ok(v as u8) }
    fn visit_i64<E: de::Error>(self, v: i64) -> Result<u8, E> { Ok(v as u8) }
    fn visit_str<E: de::Error>(self, v: &str) -> Result<u8, E> {
        Ok(match v { "N" | "f" | "k" => 0, "T" => 1, "V" => 2, _ => 9 })
    }
}
struct Key;
impl<'de> DeserializeSeed<'de> for Key {
    type Value = u8;
    fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<u8, D::Error> { d.deserialize_any(Name) }
}
impl<'de> DeserializeSeed<'de> for Reader {
    type Value = u8;
    fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<u8, D::Error> {
        if self.any { return d.deserialize_any(self) }
        if self.depth == 0 { return u8::deserialize(d) }
        match self.kind {
            0 => d.deserialize_seq(self),
            1 => d.deserialize_tuple(1, self),
            2 => d.deserialize_map(self),
            3 => d.deserialize_struct("S", &["f"], self),
            4 | 5 | 6 => d.deserialize_enum("E", &["N", "T", "V"], self),
            _ => d.deserialize_option(self),
        }
    }
}
impl<'de> Visitor<'de> for Reader {
    type Value = u8;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str("a nest") }
    fn visit_u8<E: de::Error>(self, v: u8) -> Result<u8, E> { check!(self.depth == 0); Ok(v) }
    fn visit_u64<E: de::Error>(self, v: u64) -> Result<u8, E> { check!(self.depth == 0 && v < 256); Ok(v as u8) }
    fn visit_i64<E: de::Error>(self, v: i64) -> Result<u8, E> { check!(self.depth == 0 && v >= 0 && v < 256); Ok(v as u8) }
    fn visit_some<D: Deserializer<'de>>(self, d: D) -> Result<u8, D::Error> { check!(self.kind == 7); d.deserialize_seq(self) }
    fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<u8, A::Error> {
        check!(self.depth > 0);
        let v = a.next_element_seed(self.kid())?;
        check!(v.is_some());
        check!(a.next_element_seed(self.kid())?.is_none());
        Ok(v.unwrap_or(0))
    }
    fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<u8, A::Error> {
        check!(self.depth > 0);
        let n = if self.any { a.next_key_seed(Key)? } else { a.next_key_seed(Name)? };
        check!(n.is_some() && (self.any || n == Some(0)));
        let v = a.next_value_seed(self.kid())?;
        check!(a.next_key_seed(Name)?.is_none());
        Ok(v)
    }
    fn visit_enum<A: EnumAccess<'de>>(self, a: A) -> Result<u8, A::Error> {
        check!(self.depth > 0);
        let (n, v) = a.variant_seed(Name)?;
        check!(n as usize + 4 == self.kind);
        match n {
            0 => v.newtype_variant_seed(self.kid()),
            1 => v.tuple_variant(1, self),
            _ => v.struct_variant(&["f"], self),
        }
    }
}
/// containers as the untyped reader sees them: how many there are
pub fn untyped(n: &Nest) -> Reader {
    Reader { kind: n.kind, any: true, depth: if matches!(n.kind, 5 | 6) { n.depth * 2 } else { n.depth } }
}
pub fn typed(n: &Nest) -> Reader { Reader { kind: n.kind, depth: n.depth, any: false } }

/// `n` elements, the one at `at` arbitrary; 0: sequence, 1: tuple, 2: map
#[derive(Clone, Copy)]
pub struct Wide { pub kind: usize, pub n: usize, pub at: usize, pub x: u8 }
impl Wide {
    pub fn any(sizes: &[usize]) -> Self {
        let n = sizes[sym::pick(sizes.len())];
        Wide { kind: sym::pick(3), n, at: [0, n / 2, n - 1][sym::pick(3)], x: sym::u8() }
    }
    fn get(&self, i: usize) -> u8 { if i == self.at { self.x } else { (i % 7) as u8 } }
    pub fn json<const N: usize>(&self, o: &mut Out<N>) {
        o.push(if self.kind == 2 { b'{' } else { b'[' });
        for i in 0..self.n {
            if i > 0 { o.push(b',') }
            if self.kind == 2 { o.push(b'\"'); dec(o, false, i as u64); o.put(b"\":") }
            dec(o, false, self.get(i) as u64);
        }
        o.push(if self.kind == 2 { b'}' } else { b']' });
    }
    pub fn mp<const N: usize>(&self, o: &mut Out<N>) {
        let (f, h) = if self.kind == 2 { (0x80, 0xde) } else { (0x90, 0xdc) };
        if self.n < 16 { o.push(f | self.n as u8) }
        else if self.n < 65536 { o.put(&[h, (self.n >> 8) as u8, self.n as u8]) }
        else { o.push(h + 1); o.put(&(self.n as u32).to_be_bytes()) }
        for i in 0..self.n {
            if self.kind == 2 {
                if i > 65535 { o.push(0xce); o.put(&(i as u32).to_be_bytes()) }
                else if i > 255 { o.put(&[0xcd, (i >> 8) as u8, i as u8]) } else if i > 127 { o.put(&[0xcc, i as u8]) } else { o.push(i as u8) }
            }
            let v = self.get(i);
            if v > 127 { o.push(0xcc) }
            o.push(v)
        }
    }
}
impl Serialize for Wide {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        match self.kind {
            0 => { let mut q = s.serialize_seq(Some(self.n))?; for i in 0..self.n { q.serialize_element(&self.get(i))? } q.end() }
            1 => { let mut q = s.serialize_tuple(self.n)?; for i in 0..self.n { q.serialize_element(&self.get(i))? } q.end() }
            _ => { let mut q = s.serialize_map(Some(self.n))?; for i in 0..self.n { q.serialize_entry(&(i as u32), &self.get(i))? } q.end() }
        }
    }
}
pub struct WideReader(pub Wide, pub bool);
impl<'de> DeserializeSeed<'de> for WideReader {
    type Value = ();
    fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<(), D::Error> {
        if self.1 { return d.deserialize_any(self) }
        match self.0.kind { 0 => d.deserialize_seq(self), 1 => d.deserialize_tuple(self.0.n, self), _ => d.deserialize_map(self) }
    }
}
impl<'de> Visitor<'de> for WideReader {
    type Value = ();
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str("a long container") }
    fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<(), A::Error> {
        check!(self.0.kind < 2);
        for i in 0..self.0.n { check!(a.next_element::<u8>()? == Some(self.0.get(i))) }
        check!(a.next_element::<u8>()?.is_none());
        Ok(())
    }
    fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<(), A::Error> {
        check!(self.0.kind == 2);
        for i in 0..self.0.n {
            check!(a.next_key::<u32>()? == Some(i as u32));
            check!(a.next_value::<u8>()? == self.0.get(i));
        }
        check!(a.next_key::<u32>()?.is_none());
        Ok(())
    }
}
