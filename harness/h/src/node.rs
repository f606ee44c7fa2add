//! Symbolic serde values: a tree whose shape is chosen path by path and whose
//! scalars are symbolic; it can be serialized, compared with what a
//! deserializer yields, and encoded by the reference encoders.
use crate::sym;
use core::fmt;
use serde::ser::{self, Serialize, Serializer};
use serde::de::{self, DeserializeSeed, Deserializer, Visitor, SeqAccess, MapAccess, EnumAccess, VariantAccess};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum K {
    Unit, UnitStruct, Bool, U8, U16, U32, U64, I8, I16, I32, I64, F32, F64, Char, Str, Bytes, Nil, UnitVariant, Display,
    Some, NewtypeStruct, NewtypeVariant,
    Seq, Tuple, TupleStruct, TupleVariant, Map, Struct, StructVariant,
}
use K::*;

pub const MAXN: usize = 24;
pub const SLEN: usize = 4;

#[derive(Clone, Copy)]
pub struct Node {
    pub k: K,
    pub v: u64,
    pub s: [u8; SLEN],
    pub sl: usize,
    /// children (map: key, value, key, value ...)
    pub kid: [u8; 6],
    pub n: usize,
    /// struct fields that are skipped, by position
    pub skip: u8,
    pub variant: usize,
}
pub const NODE0: Node = Node { k: Unit, v: 0, s: [0; SLEN], sl: 0, kid: [0; 6], n: 0, skip: 0, variant: 0 };

pub struct Tree { pub nodes: [Node; MAXN], pub len: usize }
impl Tree {
    pub fn new() -> Self { Tree { nodes: [NODE0; MAXN], len: 0 } }
    pub fn add(&mut self, n: Node) -> u8 {
        if self.len >= MAXN { sym::assume(false) }
        self.nodes[self.len] = n;
        self.len += 1;
        (self.len - 1) as u8
    }
    pub fn at(&self, i: u8) -> N<'_> { N { t: self, i } }
}

pub static FIELDS: [&str; 4] = ["a", "bc", "d\"e", "f"];
pub static VARIANTS: [&str; 3] = ["A", "Bc", "D"];

#[derive(Clone, Copy)]
pub struct N<'a> { pub t: &'a Tree, pub i: u8 }
impl<'a> N<'a> {
    pub fn node(&self) -> &'a Node { &self.t.nodes[self.i as usize] }
    pub fn kid(&self, k: usize) -> N<'a> { N { t: self.t, i: self.node().kid[k] } }
    pub fn text(&self) -> &'a str {
        let n = self.node();
        unsafe { core::str::from_utf8_unchecked(&n.s[..n.sl]) }
    }
    pub fn bytes(&self) -> &'a [u8] { let n = self.node(); &n.s[..n.sl] }
    pub fn chr(&self) -> char { unsafe { char::from_u32_unchecked(self.node().v as u32) } }
    pub fn skipped(&self, k: usize) -> bool { self.node().skip >> k & 1 == 1 }
    pub fn written(&self) -> usize {
        let n = self.node();
        let mut c = 0;
        for i in 0..n.n { if !self.skipped(i) { c += 1 } }
        c
    }
}

/// which kinds may appear, and how large
#[derive(Clone, Copy)]
pub struct Opts<'a> {
    /// kinds for each nesting level; the last entry applies below
    pub kinds: &'a [&'a [K]],
    pub keys: &'a [K],
    pub max_kids: usize,
    pub str_max: usize,
    /// integers at most this many symbolic bits (others zero)
    pub small_ints: bool,
    pub skips: bool,
    /// strings are plain letters
    pub plain: bool,
}

/// any char (all scalar values)
pub fn any_char() -> u32 {
    let c = sym::u32();
    sym::assume(c < 0xD800 || (c >= 0xE000 && c <= 0x10FFFF));
    c
}

pub fn leaf(k: K, o: &Opts) -> Node {
    let mut n = NODE0;
    n.k = k;
    match k {
        Bool => n.v = sym::boolean() as u64,
        U8 | I8 => n.v = sym::u8() as u64,
        U16 | I16 => n.v = sym::u16() as u64,
        U32 | I32 | F32 => n.v = sym::u32() as u64,
        U64 | I64 | F64 => n.v = sym::u64(),
        Char => n.v = if o.plain { let c = sym::u8(); sym::assume(c >= b'a' && c <= b'z'); c as u64 } else { any_char() as u64 },
        Str | Display => {
            n.sl = sym::pick(o.str_max + 1);
            for i in 0..n.sl {
                n.s[i] = sym::u8();
                sym::assume(if o.plain { n.s[i] >= b'a' && n.s[i] <= b'z' } else { n.s[i] < 0x80 });
            }
        }
        Bytes => { n.sl = sym::pick(o.str_max + 1); sym::fill(&mut n.s[..n.sl]); }
        UnitVariant | NewtypeVariant | TupleVariant | StructVariant => n.variant = sym::pick(VARIANTS.len()),
        _ => {}
    }
    if o.small_ints {
        match k {
            U8 | U16 | U32 | U64 => sym::assume(n.v < 10),
            I8 => sym::assume(n.v < 10 || n.v == 0xFF),
            I16 => sym::assume(n.v < 10 || n.v == 0xFFFF),
            I32 => sym::assume(n.v < 10 || n.v == 0xFFFF_FFFF),
            I64 => sym::assume(n.v < 10 || n.v == u64::MAX),
            _ => {}
        }
    }
    n
}

pub fn gen(t: &mut Tree, depth: usize, o: &Opts) -> u8 {
    let ks = if depth < o.kinds.len() { o.kinds[depth] } else { o.kinds[o.kinds.len() - 1] };
    gen_of(t, depth, o, ks)
}
pub fn gen_of(t: &mut Tree, depth: usize, o: &Opts, ks: &[K]) -> u8 {
    let k = ks[sym::pick(ks.len())];
    let mut n = leaf(k, o);
    match k {
        Some => {
            // an optional of unit or of an optional is not distinguishable from None
            let c = gen(t, depth + 1, o);
            let ck = t.nodes[c as usize].k;
            sym::assume(!matches!(transparent(t, c), Unit | UnitStruct | Nil | Some));
            let _ = ck;
            n.kid[0] = c; n.n = 1;
        }
        NewtypeStruct | NewtypeVariant => { n.kid[0] = gen(t, depth + 1, o); n.n = 1; }
        Seq | Tuple | TupleStruct | TupleVariant | Struct | StructVariant => {
            n.n = sym::pick(o.max_kids + 1);
            for i in 0..n.n { n.kid[i] = gen(t, depth + 1, o) }
            if o.skips && matches!(k, Struct | StructVariant) && n.n > 0 {
                n.skip = sym::pick(1 << n.n) as u8;
            }
        }
        Map => {
            let m = sym::pick(o.max_kids + 1);
            n.n = 2 * m;
            for i in 0..m {
                n.kid[2 * i] = gen_of(t, depth + 1, o, o.keys);
                n.kid[2 * i + 1] = gen(t, depth + 1, o);
            }
        }
        _ => {}
    }
    t.add(n)
}
/// the kind seen through newtype structs
fn transparent(t: &Tree, i: u8) -> K {
    let n = &t.nodes[i as usize];
    if n.k == NewtypeStruct { transparent(t, n.kid[0]) } else { n.k }
}

struct Text<'a>(&'a str);
impl<'a> fmt::Display for Text<'a> {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str(self.0) }
}

impl<'a> Serialize for N<'a> {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        use ser::{SerializeMap, SerializeSeq, SerializeStruct, SerializeStructVariant, SerializeTuple, SerializeTupleStruct, SerializeTupleVariant};
        let n = self.node();
        let vr = VARIANTS[n.variant];
        let vi = n.variant as u32;
        match n.k {
            Unit => s.serialize_unit(),
            UnitStruct => s.serialize_unit_struct("U"),
            Bool => s.serialize_bool(n.v != 0),
            U8 => s.serialize_u8(n.v as u8),
            U16 => s.serialize_u16(n.v as u16),
            U32 => s.serialize_u32(n.v as u32),
            U64 => s.serialize_u64(n.v),
            I8 => s.serialize_i8(n.v as i8),
            I16 => s.serialize_i16(n.v as i16),
            I32 => s.serialize_i32(n.v as i32),
            I64 => s.serialize_i64(n.v as i64),
            F32 => s.serialize_f32(f32::from_bits(n.v as u32)),
            F64 => s.serialize_f64(f64::from_bits(n.v)),
            Char => s.serialize_char(self.chr()),
            Str => s.serialize_str(self.text()),
            Display => s.collect_str(&Text(self.text())),
            Bytes => s.serialize_bytes(self.bytes()),
            Nil => s.serialize_none(),
            UnitVariant => s.serialize_unit_variant("E", vi, vr),
            Some => s.serialize_some(&self.kid(0)),
            NewtypeStruct => s.serialize_newtype_struct("N", &self.kid(0)),
            NewtypeVariant => s.serialize_newtype_variant("E", vi, vr, &self.kid(0)),
            Seq => { let mut q = s.serialize_seq(Option::Some(n.n))?; for i in 0..n.n { q.serialize_element(&self.kid(i))? } q.end() }
            Tuple => { let mut q = s.serialize_tuple(n.n)?; for i in 0..n.n { q.serialize_element(&self.kid(i))? } q.end() }
            TupleStruct => { let mut q = s.serialize_tuple_struct("T", n.n)?; for i in 0..n.n { q.serialize_field(&self.kid(i))? } q.end() }
            TupleVariant => { let mut q = s.serialize_tuple_variant("E", vi, vr, n.n)?; for i in 0..n.n { q.serialize_field(&self.kid(i))? } q.end() }
            Map => {
                let mut q = s.serialize_map(Option::Some(n.n / 2))?;
                for i in 0..n.n / 2 { q.serialize_key(&self.kid(2 * i))?; q.serialize_value(&self.kid(2 * i + 1))? }
                q.end()
            }
            Struct => {
                let mut q = s.serialize_struct("S", self.written())?;
                for i in 0..n.n { if self.skipped(i) { q.skip_field(FIELDS[i])? } else { q.serialize_field(FIELDS[i], &self.kid(i))? } }
                q.end()
            }
            StructVariant => {
                let mut q = s.serialize_struct_variant("E", vi, vr, self.written())?;
                for i in 0..n.n { if self.skipped(i) { q.skip_field(FIELDS[i])? } else { q.serialize_field(FIELDS[i], &self.kid(i))? } }
                q.end()
            }
        }
    }
}

/// Deserializes "the type of this value" and compares what arrives with the
/// value; a difference is a check failure.
#[derive(Clone, Copy)]
pub struct Expect<'a>(pub N<'a>);

#[inline(never)]
fn differ(line: u32) { sym::assert_at(false, 100_000 + line) }
macro_rules! same { ($c:expr) => { sym::assert_at($c, 100_000 + line!()) } }

impl<'de, 'a> DeserializeSeed<'de> for Expect<'a> {
    type Value = ();
    fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<(), D::Error> {
        let n = self.0.node();
        match n.k {
            Unit => d.deserialize_unit(self),
            UnitStruct => d.deserialize_unit_struct("U", self),
            Bool => d.deserialize_bool(self),
            U8 => d.deserialize_u8(self), U16 => d.deserialize_u16(self), U32 => d.deserialize_u32(self), U64 => d.deserialize_u64(self),
            I8 => d.deserialize_i8(self), I16 => d.deserialize_i16(self), I32 => d.deserialize_i32(self), I64 => d.deserialize_i64(self),
            F32 => d.deserialize_f32(self), F64 => d.deserialize_f64(self),
            Char => d.deserialize_char(self),
            Str | Display => d.deserialize_str(self),
            Bytes => d.deserialize_bytes(self),
            Nil | Some => d.deserialize_option(self),
            UnitVariant | NewtypeVariant | TupleVariant | StructVariant => d.deserialize_enum("E", &VARIANTS, self),
            NewtypeStruct => d.deserialize_newtype_struct("N", self),
            Seq => d.deserialize_seq(self),
            Tuple => d.deserialize_tuple(n.n, self),
            TupleStruct => d.deserialize_tuple_struct("T", n.n, self),
            Map => d.deserialize_map(self),
            Struct => d.deserialize_struct("S", &FIELDS[..n.n], self),
        }
    }
}
impl<'a> Expect<'a> {
    fn int(self, v: i128) {
        let n = self.0.node();
        let w: i128 = match n.k {
            U8 => n.v as u8 as i128, U16 => n.v as u16 as i128, U32 => n.v as u32 as i128, U64 => n.v as i128,
            I8 => n.v as i8 as i128, I16 => n.v as i16 as i128, I32 => n.v as i32 as i128, I64 => n.v as i64 as i128,
            _ => { differ(line!()); 0 }
        };
        same!(v == w);
    }
    fn seq<'de, A: SeqAccess<'de>>(self, mut a: A) -> Result<(), A::Error> {
        let n = self.0.node();
        for i in 0..n.n {
            match a.next_element_seed(Expect(self.0.kid(i)))? { Option::Some(()) => {} None => differ(line!()) }
        }
        // derived code for sequences of open length reads until the end
        if n.k == Seq { if let Option::Some(_) = a.next_element::<de::IgnoredAny>()? { differ(line!()) } }
        Ok(())
    }
    fn fields<'de, A: MapAccess<'de>>(self, mut a: A) -> Result<(), A::Error> {
        let n = self.0.node();
        let mut seen = 0u8;
        while let Option::Some(i) = a.next_key_seed(FieldKey(n.n))? {
            if i >= n.n || seen >> i & 1 == 1 || self.0.skipped(i) { differ(line!()); return Ok(()) }
            seen |= 1 << i;
            a.next_value_seed(Expect(self.0.kid(i)))?;
        }
        for i in 0..n.n { same!((seen >> i & 1 == 1) != self.0.skipped(i)) }
        Ok(())
    }
}
impl<'de, 'a> Visitor<'de> for Expect<'a> {
    type Value = ();
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str("value") }
    fn visit_unit<E>(self) -> Result<(), E> { same!(matches!(self.0.node().k, Unit | UnitStruct | Nil)); Ok(()) }
    fn visit_none<E>(self) -> Result<(), E> { same!(self.0.node().k == Nil); Ok(()) }
    fn visit_some<D: Deserializer<'de>>(self, d: D) -> Result<(), D::Error> {
        if self.0.node().k != Some { differ(line!()); return Ok(()) }
        Expect(self.0.kid(0)).deserialize(d)
    }
    fn visit_newtype_struct<D: Deserializer<'de>>(self, d: D) -> Result<(), D::Error> {
        if self.0.node().k != NewtypeStruct { differ(line!()); return Ok(()) }
        Expect(self.0.kid(0)).deserialize(d)
    }
    fn visit_bool<E>(self, v: bool) -> Result<(), E> { let n = self.0.node(); same!(n.k == Bool && v == (n.v != 0)); Ok(()) }
    fn visit_u8<E>(self, v: u8) -> Result<(), E> { self.int(v as i128); Ok(()) }
    fn visit_u16<E>(self, v: u16) -> Result<(), E> { self.int(v as i128); Ok(()) }
    fn visit_u32<E>(self, v: u32) -> Result<(), E> { self.int(v as i128); Ok(()) }
    fn visit_u64<E>(self, v: u64) -> Result<(), E> { self.int(v as i128); Ok(()) }
    fn visit_i8<E>(self, v: i8) -> Result<(), E> { self.int(v as i128); Ok(()) }
    fn visit_i16<E>(self, v: i16) -> Result<(), E> { self.int(v as i128); Ok(()) }
    fn visit_i32<E>(self, v: i32) -> Result<(), E> { self.int(v as i128); Ok(()) }
    fn visit_i64<E>(self, v: i64) -> Result<(), E> { self.int(v as i128); Ok(()) }
    fn visit_f32<E>(self, v: f32) -> Result<(), E> { let n = self.0.node(); same!(n.k == F32 && v.to_bits() == n.v as u32); Ok(()) }
    fn visit_f64<E>(self, v: f64) -> Result<(), E> { let n = self.0.node(); same!(n.k == F64 && v.to_bits() == n.v); Ok(()) }
    fn visit_char<E>(self, v: char) -> Result<(), E> { let n = self.0.node(); same!(n.k == Char && v as u64 == n.v); Ok(()) }
    fn visit_str<E>(self, v: &str) -> Result<(), E> {
        let n = self.0.node();
        match n.k {
            Str | Display => same!(sym::eq(v.as_bytes(), self.0.bytes())),
            Char => { let mut b = [0u8; 4]; let w = self.0.chr().encode_utf8(&mut b); same!(sym::eq(v.as_bytes(), w.as_bytes())) }
            _ => differ(line!()),
        }
        Ok(())
    }
    fn visit_bytes<E>(self, v: &[u8]) -> Result<(), E> { same!(self.0.node().k == Bytes && sym::eq(v, self.0.bytes())); Ok(()) }
    fn visit_seq<A: SeqAccess<'de>>(self, a: A) -> Result<(), A::Error> {
        match self.0.node().k {
            Seq | Tuple | TupleStruct | TupleVariant | Struct | StructVariant => self.seq(a),
            Bytes => self.byte_seq(a),
            _ => { differ(line!()); Ok(()) }
        }
    }
    fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<(), A::Error> {
        let n = self.0.node();
        match n.k {
            Map => {
                for i in 0..n.n / 2 {
                    match a.next_key_seed(Expect(self.0.kid(2 * i)))? { Option::Some(()) => {} None => differ(line!()) }
                    a.next_value_seed(Expect(self.0.kid(2 * i + 1)))?;
                }
                if let Option::Some(_) = a.next_key::<de::IgnoredAny>()? { differ(line!()) }
                Ok(())
            }
            Struct | StructVariant => self.fields(a),
            _ => { differ(line!()); Ok(()) }
        }
    }
    fn visit_enum<A: EnumAccess<'de>>(self, a: A) -> Result<(), A::Error> {
        let n = self.0.node();
        let (v, r) = a.variant_seed(VariantKey)?;
        if v != n.variant { differ(line!()); return Ok(()) }
        match n.k {
            UnitVariant => r.unit_variant(),
            NewtypeVariant => r.newtype_variant_seed(Expect(self.0.kid(0))),
            TupleVariant => r.tuple_variant(n.n, self),
            StructVariant => r.struct_variant(&FIELDS[..n.n], self),
            _ => { differ(line!()); Ok(()) }
        }
    }
}
impl<'a> Expect<'a> {
    fn byte_seq<'de, A: SeqAccess<'de>>(self, mut a: A) -> Result<(), A::Error> {
        let b = self.0.bytes();
        for x in b { match a.next_element::<u8>()? { Option::Some(y) => same!(*x == y), None => differ(line!()) } }
        if let Option::Some(_) = a.next_element::<u8>()? { differ(line!()) }
        Ok(())
    }
}

/// a struct field identifier, by name or by position
#[derive(Clone, Copy)]
pub struct FieldKey(pub usize);
impl<'de> DeserializeSeed<'de> for FieldKey {
    type Value = usize;
    fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<usize, D::Error> { d.deserialize_identifier(self) }
}
impl<'de> Visitor<'de> for FieldKey {
    type Value = usize;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str("field") }
    fn visit_u64<E>(self, v: u64) -> Result<usize, E> { Ok(if v < self.0 as u64 { v as usize } else { 99 }) }
    fn visit_str<E>(self, v: &str) -> Result<usize, E> {
        for i in 0..self.0 { if FIELDS[i].as_bytes() == v.as_bytes() { return Ok(i) } }
        Ok(99)
    }
    fn visit_bytes<E>(self, v: &[u8]) -> Result<usize, E> {
        for i in 0..self.0 { if FIELDS[i].as_bytes() == v { return Ok(i) } }
        Ok(99)
    }
}
/// an enum variant identifier, by name or by position
#[derive(Clone, Copy)]
pub struct VariantKey;
impl<'de> DeserializeSeed<'de> for VariantKey {
    type Value = usize;
    fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<usize, D::Error> { d.deserialize_identifier(self) }
}
impl<'de> Visitor<'de> for VariantKey {
    type Value = usize;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str("variant") }
    fn visit_u64<E: de::Error>(self, v: u64) -> Result<usize, E> {
        if v < VARIANTS.len() as u64 { Ok(v as usize) } else { Err(E::invalid_value(de::Unexpected::Unsigned(v), &self)) }
    }
    fn visit_str<E: de::Error>(self, v: &str) -> Result<usize, E> {
        for i in 0..VARIANTS.len() { if VARIANTS[i].as_bytes() == v.as_bytes() { return Ok(i) } }
        Err(E::unknown_variant(v, &VARIANTS))
    }
    fn visit_bytes<E: de::Error>(self, v: &[u8]) -> Result<usize, E> {
        for i in 0..VARIANTS.len() { if VARIANTS[i].as_bytes() == v { return Ok(i) } }
        Err(E::custom("unknown variant"))
    }
}
