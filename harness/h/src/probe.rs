//! Reading as any target type: a symbolic type drives the deserializer the
//! way derived code does, and everything that arrives is recorded.
use crate::node::{FieldKey, VariantKey, FIELDS, VARIANTS};
use crate::sym;
use crate::util::Out;
use core::fmt;
use serde::de::{self, DeserializeSeed, Deserializer, EnumAccess, Error as _, IgnoredAny, MapAccess, SeqAccess, VariantAccess, Visitor};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum T {
    Unit, UnitStruct, Bool, U8, U16, U32, U64, I8, I16, I32, I64, F32, F64, Char, Str, String, Bytes, ByteBuf,
    Any, Ignored, Ident,
    Opt, Newtype, Enum, Seq, Tuple, TupleStruct, Map, Struct,
}
use T::*;
pub const SCALARS: &[T] = &[Unit, UnitStruct, Bool, U8, U16, U32, U64, I8, I16, I32, I64, F32, F64, Char, Str, String, Bytes, ByteBuf, Any, Ignored, Ident];
pub const HOLDERS: &[T] = &[Opt, Newtype, Enum, Seq, Tuple, TupleStruct, Map, Struct];

#[derive(Clone, Copy)]
pub struct Ty { pub k: T, pub kid: [u8; 3], pub n: usize }
pub const TY0: Ty = Ty { k: Unit, kid: [0; 3], n: 0 };
pub const MAXT: usize = 16;
pub struct Types { pub a: [Ty; MAXT], pub len: usize }
impl Types {
    pub const fn new() -> Self { Types { a: [TY0; MAXT], len: 0 } }
    pub fn add(&mut self, t: Ty) -> u8 { self.a[self.len] = t; self.len += 1; (self.len - 1) as u8 }
    pub fn leaf(&mut self, k: T) -> u8 { self.add(Ty { k, ..TY0 }) }
    pub fn of(&mut self, k: T, kids: &[u8]) -> u8 {
        let mut t = Ty { k, n: kids.len(), ..TY0 };
        t.kid[..kids.len()].copy_from_slice(kids);
        self.add(t)
    }
    /// any type whose kinds at each level are among `levels`
    pub fn gen(&mut self, levels: &[&[T]], max: usize) -> u8 {
        let ks = levels[0];
        let k = ks[sym::pick(ks.len())];
        let below = if levels.len() > 1 { &levels[1..] } else { levels };
        let mut t = Ty { k, ..TY0 };
        match k {
            Opt | Newtype | Seq => { t.n = 1; t.kid[0] = self.gen(below, max) }
            // the key type is drawn from the last level
            Map => { t.n = 2; t.kid[0] = self.gen(&levels[levels.len() - 1..], max); t.kid[1] = self.gen(below, max) }
            Enum => { t.n = 1 + sym::pick(2); for i in 0..t.n { t.kid[i] = self.gen(below, max) } }
            Tuple | TupleStruct | Struct => { t.n = sym::pick(max + 1); for i in 0..t.n { t.kid[i] = self.gen(below, max) } }
            _ => {}
        }
        self.add(t)
    }
}

pub const LOGN: usize = 192;
/// what was read
pub struct Log { pub o: Out<LOGN>, pub refs: [(usize, usize, usize); 8], pub n: usize }
impl Log {
    pub const fn new() -> Self { Log { o: Out::new(), refs: [(0, 0, 0); 8], n: 0 } }
    pub fn as_slice(&self) -> &[u8] { self.o.as_slice() }
    fn tag(&mut self, c: u8) { self.o.push(c) }
    pub fn int(&mut self, v: i128) { self.num(v < 0, v as u64) }
    pub fn num(&mut self, neg: bool, v: u64) {
        self.tag(b'i');
        self.o.push(neg as u8);
        self.o.put(&v.to_be_bytes())
    }
    pub fn bytes(&mut self, tag: u8, v: &[u8]) { self.tag(tag); self.o.push(v.len() as u8); self.o.put(v) }
    fn borrowed(&mut self, tag: u8, v: &[u8]) {
        // where the content stands in the log, to look again later
        if self.n < 8 { self.refs[self.n] = (v.as_ptr() as usize, v.len(), self.o.len + 2); self.n += 1 }
        self.bytes(tag, v)
    }
    /// borrowed slices lie inside the buffer, apart from one another, and
    /// still hold what was read
    pub fn intact(&self, base: *const u8, n: usize) -> bool {
        let lo = base as usize;
        for i in 0..self.n {
            let (p, l, at) = self.refs[i];
            if l == 0 { continue }
            if p < lo || p + l > lo + n { return false }
            for j in 0..i { let (q, m, _) = self.refs[j]; if m != 0 && p < q + m && q < p + l { return false } }
            let now = unsafe { core::slice::from_raw_parts(p as *const u8, l) };
            if !sym::eq(now, &self.o.buf[at..at + l]) { return false }
        }
        true
    }
    fn append(&mut self, l: &Log) {
        let base = self.o.len;
        self.o.put(l.as_slice());
        for i in 0..l.n { if self.n < 8 { let (p, n, at) = l.refs[i]; self.refs[self.n] = (p, n, at + base); self.n += 1 } }
    }
}

pub struct Probe<'t, 'l> { pub ts: &'t Types, pub i: u8, pub log: &'l mut Log }
impl<'t, 'l> Probe<'t, 'l> {
    pub fn new(ts: &'t Types, i: u8, log: &'l mut Log) -> Self { Probe { ts, i, log } }
    fn ty(&self) -> &'t Ty { &self.ts.a[self.i as usize] }
    fn kid(&mut self, i: usize) -> Probe<'t, '_> { Probe { ts: self.ts, i: self.ty().kid[i], log: &mut *self.log } }
    fn any(&mut self) -> bool { matches!(self.ty().k, Any) }
}
impl<'de, 't, 'l> DeserializeSeed<'de> for Probe<'t, 'l> {
    type Value = ();
    fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<(), D::Error> {
        let t = self.ty();
        match t.k {
            Unit => d.deserialize_unit(self),
            UnitStruct => d.deserialize_unit_struct("U", self),
            Bool => d.deserialize_bool(self),
            U8 => d.deserialize_u8(self), U16 => d.deserialize_u16(self), U32 => d.deserialize_u32(self), U64 => d.deserialize_u64(self),
            I8 => d.deserialize_i8(self), I16 => d.deserialize_i16(self), I32 => d.deserialize_i32(self), I64 => d.deserialize_i64(self),
            F32 => d.deserialize_f32(self), F64 => d.deserialize_f64(self),
            Char => d.deserialize_char(self),
            Str => d.deserialize_str(self), String => d.deserialize_string(self),
            Bytes => d.deserialize_bytes(self), ByteBuf => d.deserialize_byte_buf(self),
            Any => d.deserialize_any(self),
            Ignored => { d.deserialize_ignored_any(self) }
            Ident => d.deserialize_identifier(self),
            Opt => d.deserialize_option(self),
            Newtype => d.deserialize_newtype_struct("N", self),
            Enum => d.deserialize_enum("E", &VARIANTS, self),
            Seq => d.deserialize_seq(self),
            Tuple => d.deserialize_tuple(t.n, self),
            TupleStruct => d.deserialize_tuple_struct("T", t.n, self),
            Map => d.deserialize_map(self),
            Struct => d.deserialize_struct("S", &FIELDS[..t.n], self),
        }
    }
}
/// can a visitor of this type take such a value
macro_rules! want { ($s:ident, $($k:pat_param)|+) => { if matches!($s.ty().k, Ignored) { $s.log.tag(b'0'); return Ok(()) } if !matches!($s.ty().k, Any $(| $k)+) { return Err(E::custom("type")) } } }
impl<'de, 't, 'l> Visitor<'de> for Probe<'t, 'l> {
    type Value = ();
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str("value") }
    fn visit_unit<E: de::Error>(self) -> Result<(), E> { want!(self, Unit | UnitStruct | Opt); self.log.tag(b'0'); Ok(()) }
    fn visit_none<E: de::Error>(self) -> Result<(), E> { want!(self, Opt); self.log.tag(b'0'); Ok(()) }
    fn visit_some<D: Deserializer<'de>>(mut self, d: D) -> Result<(), D::Error> {
        if self.any() { return Probe { ..self }.deserialize(d) }
        self.log.tag(b's');
        self.kid(0).deserialize(d)
    }
    fn visit_newtype_struct<D: Deserializer<'de>>(mut self, d: D) -> Result<(), D::Error> { self.kid(0).deserialize(d) }
    fn visit_bool<E: de::Error>(self, v: bool) -> Result<(), E> { want!(self, Bool); self.log.tag(b'b'); self.log.o.push(v as u8); Ok(()) }
    fn visit_u8<E: de::Error>(self, v: u8) -> Result<(), E> { want!(self, U8); self.log.int(v as i128); Ok(()) }
    fn visit_u16<E: de::Error>(self, v: u16) -> Result<(), E> { want!(self, U16); self.log.int(v as i128); Ok(()) }
    fn visit_u32<E: de::Error>(self, v: u32) -> Result<(), E> { want!(self, U32 | Ident); self.log.int(v as i128); Ok(()) }
    fn visit_u64<E: de::Error>(self, v: u64) -> Result<(), E> { want!(self, U64); self.log.int(v as i128); Ok(()) }
    fn visit_i8<E: de::Error>(self, v: i8) -> Result<(), E> { want!(self, I8); self.log.int(v as i128); Ok(()) }
    fn visit_i16<E: de::Error>(self, v: i16) -> Result<(), E> { want!(self, I16); self.log.int(v as i128); Ok(()) }
    fn visit_i32<E: de::Error>(self, v: i32) -> Result<(), E> { want!(self, I32); self.log.int(v as i128); Ok(()) }
    fn visit_i64<E: de::Error>(self, v: i64) -> Result<(), E> { want!(self, I64); self.log.int(v as i128); Ok(()) }
    fn visit_f32<E: de::Error>(self, v: f32) -> Result<(), E> { want!(self, F32); self.log.tag(b'g'); self.log.o.put(&v.to_bits().to_be_bytes()); Ok(()) }
    fn visit_f64<E: de::Error>(self, v: f64) -> Result<(), E> { want!(self, F64); self.log.tag(b'd'); self.log.o.put(&v.to_bits().to_be_bytes()); Ok(()) }
    fn visit_char<E: de::Error>(self, v: char) -> Result<(), E> { want!(self, Char); self.log.tag(b'c'); self.log.o.put(&(v as u32).to_be_bytes()); Ok(()) }
    fn visit_str<E: de::Error>(self, v: &str) -> Result<(), E> { want!(self, Str | String | Ident); self.log.bytes(b'"', v.as_bytes()); Ok(()) }
    fn visit_borrowed_str<E: de::Error>(self, v: &'de str) -> Result<(), E> { want!(self, Str | String | Ident); self.log.borrowed(b'"', v.as_bytes()); Ok(()) }
    fn visit_bytes<E: de::Error>(self, v: &[u8]) -> Result<(), E> { want!(self, Bytes | ByteBuf | Ident); self.log.bytes(b'x', v); Ok(()) }
    fn visit_borrowed_bytes<E: de::Error>(self, v: &'de [u8]) -> Result<(), E> { want!(self, Bytes | ByteBuf | Ident); self.log.borrowed(b'x', v); Ok(()) }
    fn visit_seq<A: SeqAccess<'de>>(mut self, mut a: A) -> Result<(), A::Error> {
        let t = self.ty();
        match t.k {
            Any | Seq => {
                self.log.tag(b'[');
                loop {
                    let r = if t.k == Any { a.next_element_seed(Probe { ts: self.ts, i: self.i, log: &mut *self.log })? } else { a.next_element_seed(self.kid(0))? };
                    if r.is_none() { break }
                }
            }
            Tuple | TupleStruct | Struct => {
                self.log.tag(if t.k == Struct { b'{' } else { b'[' });
                for i in 0..t.n {
                    if t.k == Struct { self.log.o.push(i as u8) }
                    if a.next_element_seed(self.kid(i))?.is_none() { return Err(A::Error::invalid_length(i, &"more")) }
                }
            }
            Enum => { self.log.tag(b'['); for i in 0..t.n { if a.next_element_seed(self.kid(i))?.is_none() { return Err(A::Error::invalid_length(i, &"more")) } } }
            Ignored => { while a.next_element::<IgnoredAny>()?.is_some() {} self.log.tag(b'0'); return Ok(()) }
            Bytes | ByteBuf => { self.log.tag(b'['); while let Option::Some(v) = a.next_element::<u8>()? { self.log.o.push(v) } }
            _ => return Err(A::Error::custom("type")),
        }
        self.log.tag(b']');
        Ok(())
    }
    fn visit_map<A: MapAccess<'de>>(mut self, mut a: A) -> Result<(), A::Error> {
        let t = self.ty();
        match t.k {
            Any => {
                self.log.tag(b'<');
                while a.next_key_seed(Probe { ts: self.ts, i: self.i, log: &mut *self.log })?.is_some() {
                    a.next_value_seed(Probe { ts: self.ts, i: self.i, log: &mut *self.log })?
                }
            }
            Map => {
                self.log.tag(b'<');
                while a.next_key_seed(self.kid(0))?.is_some() { a.next_value_seed(self.kid(1))? }
            }
            Ignored => { while a.next_entry::<IgnoredAny, IgnoredAny>()?.is_some() {} self.log.tag(b'0'); return Ok(()) }
            Struct | Enum => {
                // as derived code does it
                self.log.tag(b'{');
                let mut l = [Log::new(), Log::new(), Log::new()];
                let mut seen = [false; 3];
                while let Option::Some(i) = a.next_key_seed(FieldKey(t.n))? {
                    if i >= t.n { a.next_value::<IgnoredAny>()?; continue }
                    if seen[i] { return Err(A::Error::duplicate_field(FIELDS[i])) }
                    seen[i] = true;
                    a.next_value_seed(Probe { ts: self.ts, i: t.kid[i], log: &mut l[i] })?;
                }
                for i in 0..t.n {
                    self.log.o.push(i as u8);
                    if seen[i] { self.log.append(&l[i]) }
                    else if self.ts.a[t.kid[i] as usize].k == Opt { self.log.tag(b'0') }
                    else { return Err(A::Error::missing_field(FIELDS[i])) }
                }
                self.log.tag(b']');
                return Ok(())
            }
            _ => return Err(A::Error::custom("type")),
        }
        self.log.tag(b'>');
        Ok(())
    }
    fn visit_enum<A: EnumAccess<'de>>(mut self, a: A) -> Result<(), A::Error> {
        let t = self.ty();
        if t.k != Enum { return Err(A::Error::custom("type")) }
        let (v, r) = a.variant_seed(VariantKey)?;
        self.log.tag(b'e');
        self.log.o.push(v as u8);
        // a unit variant, a variant of one value, and a tuple or struct variant
        match v {
            0 => r.unit_variant(),
            1 => r.newtype_variant_seed(self.kid(0)),
            _ => if t.n == 1 { r.tuple_variant(t.n, self) } else { r.struct_variant(&FIELDS[..t.n], self) },
        }
    }
}
