//! M11: borrowed MessagePack data is the exact input slice; a marker of
//! another type is an error.
use crate::probe::{Probe, T, T::*};
use crate::refdec::{mp_head, Head};
use crate::sym;
use crate::util::{far, utf8_valid, windowed};
use core::fmt;
use serde::de::{DeserializeSeed, Deserializer, EnumAccess, MapAccess, SeqAccess, Visitor};
use ser_write_msgpack::de as md;

const BIG: bool = cfg!(feature = "thorough");
/// what a visitor was handed
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Got { Nothing, Str(usize, usize), Bytes(usize, usize), Char(u32), Bool(bool), Int(i128), Float, Unit, Opt(bool), Newtype, Seq, Map, Enum, Owned }
struct Catch(T);
impl<'de> DeserializeSeed<'de> for Catch {
    type Value = Got;
    fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<Got, D::Error> {
        match self.0 {
            Unit => d.deserialize_unit(self),
            UnitStruct => d.deserialize_unit_struct("U", self),
            Bool => d.deserialize_bool(self),
            U8 => d.deserialize_u8(self), U16 => d.deserialize_u16(self), U32 => d.deserialize_u32(self), U64 => d.deserialize_u64(self),
            I8 => d.deserialize_i8(self), I16 => d.deserialize_i16(self), I32 => d.deserialize_i32(self), I64 => d.deserialize_i64(self),
            F32 => d.deserialize_f32(self), F64 => d.deserialize_f64(self),
            Char => d.deserialize_char(self),
            Str => d.deserialize_str(self), String => d.deserialize_string(self),
            Bytes => d.deserialize_bytes(self), ByteBuf => d.deserialize_byte_buf(self),
            Any => d.deserialize_any(self),
            Ignored => d.deserialize_ignored_any(self),
            Ident => d.deserialize_identifier(self),
            Opt => d.deserialize_option(self),
            Newtype => d.deserialize_newtype_struct("N", self),
            Enum => d.deserialize_enum("E", &crate::node::VARIANTS, self),
            Seq => d.deserialize_seq(self),
            Tuple => d.deserialize_tuple(1, self),
            TupleStruct => d.deserialize_tuple_struct("T", 1, self),
            Map => d.deserialize_map(self),
            Struct => d.deserialize_struct("S", &crate::node::FIELDS[..1], self),
        }
    }
}
impl<'de> Visitor<'de> for Catch {
    type Value = Got;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str("value") }
    fn visit_unit<E>(self) -> Result<Got, E> { Ok(Got::Unit) }
    fn visit_none<E>(self) -> Result<Got, E> { Ok(Got::Opt(false)) }
    fn visit_some<D: Deserializer<'de>>(self, _: D) -> Result<Got, D::Error> { Ok(Got::Opt(true)) }
    fn visit_newtype_struct<D: Deserializer<'de>>(self, _: D) -> Result<Got, D::Error> { Ok(Got::Newtype) }
    fn visit_bool<E>(self, v: bool) -> Result<Got, E> { Ok(Got::Bool(v)) }
    fn visit_u8<E>(self, v: u8) -> Result<Got, E> { Ok(Got::Int(v as i128)) }
    fn visit_u16<E>(self, v: u16) -> Result<Got, E> { Ok(Got::Int(v as i128)) }
    fn visit_u32<E>(self, v: u32) -> Result<Got, E> { Ok(Got::Int(v as i128)) }
    fn visit_u64<E>(self, v: u64) -> Result<Got, E> { Ok(Got::Int(v as i128)) }
    fn visit_i8<E>(self, v: i8) -> Result<Got, E> { Ok(Got::Int(v as i128)) }
    fn visit_i16<E>(self, v: i16) -> Result<Got, E> { Ok(Got::Int(v as i128)) }
    fn visit_i32<E>(self, v: i32) -> Result<Got, E> { Ok(Got::Int(v as i128)) }
    fn visit_i64<E>(self, v: i64) -> Result<Got, E> { Ok(Got::Int(v as i128)) }
    fn visit_f32<E>(self, _: f32) -> Result<Got, E> { Ok(Got::Float) }
    fn visit_f64<E>(self, _: f64) -> Result<Got, E> { Ok(Got::Float) }
    fn visit_char<E>(self, v: char) -> Result<Got, E> { Ok(Got::Char(v as u32)) }
    fn visit_str<E>(self, _: &str) -> Result<Got, E> { Ok(Got::Owned) }
    fn visit_bytes<E>(self, _: &[u8]) -> Result<Got, E> { Ok(Got::Owned) }
    fn visit_borrowed_str<E>(self, v: &'de str) -> Result<Got, E> { Ok(Got::Str(v.as_ptr() as usize, v.len())) }
    fn visit_borrowed_bytes<E>(self, v: &'de [u8]) -> Result<Got, E> { Ok(Got::Bytes(v.as_ptr() as usize, v.len())) }
    fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<Got, A::Error> { while a.next_element::<serde::de::IgnoredAny>()?.is_some() {} Ok(Got::Seq) }
    fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<Got, A::Error> { while a.next_entry::<serde::de::IgnoredAny, serde::de::IgnoredAny>()?.is_some() {} Ok(Got::Map) }
    fn visit_enum<A: EnumAccess<'de>>(self, _: A) -> Result<Got, A::Error> { Ok(Got::Enum) }
}
fn accepted() { cover!() }
fn refused() { cover!() }
/// one scalar or string of a typed read, at some offset of the input
fn typed(b: &[u8], at: usize, t: T) {
    let mut d = md::Deserializer::from_slice(b);
    d.eat_some(at);
    let base = b.as_ptr() as usize;
    let r = Catch(t).deserialize(&mut d);
    let h = mp_head(b, at);
    // the payload of a string or binary, when it is all there
    let span = match h { Some((Head::Str(l) | Head::Bin(l), j)) if l <= b.len() - j => Some((j, l)), _ => None };
    let text = match (h, span) { (Some((Head::Str(_), _)), Some((j, l))) => utf8_valid(&b[j..j + l]), _ => false };
    let ok = match r { Ok(g) => { accepted(); g } Err(_) => { refused(); Got::Nothing } };
    let int = match h { Some((Head::Int(v), _)) => Some(v), _ => None };
    let fits = |lo: i128, hi: i128| match int { Some(v) if v >= lo && v <= hi => Got::Int(v), _ => Got::Nothing };
    let want = match t {
        Unit | UnitStruct => if matches!(h, Some((Head::Nil, _))) { Got::Unit } else { Got::Nothing },
        Bool => match h { Some((Head::Bool(v), _)) => Got::Bool(v), _ => Got::Nothing },
        U8 => fits(0, 255), U16 => fits(0, 0xffff), U32 => fits(0, 0xffff_ffff), U64 => fits(0, u64::MAX as i128),
        I8 => fits(-128, 127), I16 => fits(-32768, 32767), I32 => fits(i32::MIN as i128, i32::MAX as i128), I64 => fits(i64::MIN as i128, i64::MAX as i128),
        F32 | F64 => match h { Some((Head::Int(_) | Head::F32(_) | Head::F64(_) | Head::Nil, _)) => Got::Float, _ => Got::Nothing },
        Str | String => match span { Some((j, l)) if text => Got::Str(base + j, l), _ => Got::Nothing },
        Bytes | ByteBuf => match (h, span) { (Some((Head::Bin(_), _)), Some((j, l))) => Got::Bytes(base + j, l), _ => Got::Nothing },
        Char => match span { Some((j, l)) if text => one_char(&b[j..j + l]), _ => Got::Nothing },
        Ident => match h {
            Some((Head::Str(_), _)) => match span { Some((j, l)) if text => Got::Str(base + j, l), _ => Got::Nothing },
            Some((Head::Int(v), _)) if matches!(b[at], 0..=0x7f | 0xcc..=0xce) => Got::Int(v),
            _ => Got::Nothing,
        },
        _ => Got::Nothing,
    };
    check!(ok == want);
    if ok != Got::Nothing {
        let end = match (h, span) { (_, Some((j, l))) => j + l, (Some((_, j)), _) => j, _ => 0 };
        check!(d.end() == Ok(b.len() - end));
    }
}
/// the one character a text consists of
fn one_char(s: &[u8]) -> Got {
    let v = match *s {
        [a] => a as u32,
        [a, b] if a >= 0xc0 => (a as u32 & 0x1f) << 6 | (b as u32 & 0x3f),
        [a, b, c] if a >= 0xe0 => (a as u32 & 0xf) << 12 | (b as u32 & 0x3f) << 6 | (c as u32 & 0x3f),
        [a, b, c, d] if a >= 0xf0 => (a as u32 & 7) << 18 | (b as u32 & 0x3f) << 12 | (c as u32 & 0x3f) << 6 | (d as u32 & 0x3f),
        _ => return Got::Nothing,
    };
    Got::Char(v)
}
const LEAVES: &[T] = &[Unit, UnitStruct, Bool, U8, U16, U32, U64, I8, I16, I32, I64, F32, F64, Char, Str, String, Bytes, ByteBuf, Ident];

harnesses! {
    fn h_scalars() {
        let b = sym::bytes::<{ if BIG { 8 } else { 7 } }>();
        let n = sym::pick(b.len() + 1);
        typed(&b[..n], 0, LEAVES[sym::pick(LEAVES.len())])
    }
    /// not at the start of the input
    fn h_offset() {
        let b = sym::bytes::<6>();
        let at = sym::pick(4);
        typed(&b, at, [Str, Bytes, Char, Ident, U16][sym::pick(5)])
    }
    fn h_numbers() {
        let b = sym::bytes::<9>();
        let c = b[0];
        sym::assume(c >= 0xca && c < 0xd4);
        typed(&b, 0, LEAVES[sym::pick(LEAVES.len())])
    }
    /// headers of every width over longer contents
    fn h_long() {
        let mut b = [b'x'; 48];
        let len = [0, 5, 31, 32, 40][sym::pick(5)];
        let k = sym::pick(6);
        let head: usize = [2, 3, 5][k / 2];
        b[..head].fill(0);
        b[0] = [0xd9, 0xc4, 0xda, 0xc5, 0xdb, 0xc6][k];
        b[head - 1] = len as u8;
        if len > 0 { b[head] = sym::u8() }
        typed(&b[..[48, head + len][sym::pick(2)]], 0, [Str, String, Bytes, ByteBuf, Char, Ident][sym::pick(6)])
    }
    fn h_far() {
        let (n, at) = far();
        let c = windowed::<300>([&b"abcdefgh"[..], "\u{20ac}a\u{1f600}".as_bytes()][sym::pick(2)], n, at, 2);
        let mut b = [0u8; 300];
        b[0] = [0xda, 0xc5][sym::pick(2)];
        b[1] = (n >> 8) as u8;
        b[2] = n as u8;
        b[3..3 + n].copy_from_slice(c.as_slice());
        typed(&b[..n + 3 + sym::pick(2)], 0, if b[0] == 0xc5 { Bytes } else { [Str, String, Ident][sym::pick(3)] })
    }
    /// with two arbitrary bytes anywhere
    fn h_window() {
        let n = 6 + sym::pick(30);
        let c = windowed::<300>([&b"abcdefgh"[..], "\u{20ac}a\u{1f600}".as_bytes()][sym::pick(2)], n, sym::pick(n - 1), 2);
        let mut b = [0u8; 80];
        b[0] = [0xd9, 0xc4][sym::pick(2)];
        b[1] = n as u8;
        b[2..2 + n].copy_from_slice(c.as_slice());
        typed(&b[..n + 2 + sym::pick(2)], 0, if b[0] == 0xc4 { Bytes } else { [Str, String, Ident][sym::pick(3)] })
    }
    /// containers: only arrays for sequences, maps for maps, either for structs;
    /// optional is absent for nil only
    fn h_containers() {
        let b = sym::bytes::<{ if BIG { 6 } else { 5 } }>();
        let n = sym::pick(b.len() + 1);
        let b = &b[..n];
        let t = [Seq, Tuple, TupleStruct, Map, Struct, Opt, Newtype, Enum, Ignored][sym::pick(9)];
        let mut d = md::Deserializer::from_slice(b);
        let r = Catch(t).deserialize(&mut d);
        let h = mp_head(b, 0);
        let (arr, map) = (matches!(h, Some((Head::Arr(_), _))), matches!(h, Some((Head::Map(_), _))));
        match t {
            Seq | Tuple | TupleStruct => check!(match r { Ok(g) => arr && g == Got::Seq, Err(_) => !(arr && crate::refdec::mp_skip(b, 0).is_some()) }),
            Map => check!(match r { Ok(g) => map && g == Got::Map, Err(_) => !(map && crate::refdec::mp_skip(b, 0).is_some()) }),
            Struct => check!(match r { Ok(Got::Seq) => arr, Ok(Got::Map) => map, Ok(_) => false, Err(_) => !((arr || map) && crate::refdec::mp_skip(b, 0).is_some()) }),
            Opt => check!(r == if n == 0 { Err(md::Error::UnexpectedEof) } else { Ok(Got::Opt(b[0] != 0xc0)) }),
            Newtype => check!(r == Ok(Got::Newtype)),
            Enum => check!(r == if n == 0 { Err(md::Error::UnexpectedEof) } else { Ok(Got::Enum) }),
            _ => check!(match r { Ok(g) => g == Got::Unit, Err(_) => true }),
        }
        cover!();
    }
    /// borrowed data in several places of one value
    fn h_many() {
        use crate::probe::{Log, Types};
        let mut b = sym::bytes::<{ if BIG { 8 } else { 7 } }>();
        b[0] = [0x92, 0x81][sym::pick(2)];
        let mut ts = Types::new();
        let (s, x) = (ts.leaf(Str), ts.leaf(Bytes));
        let k = [s, x];
        let t = ts.of(if b[0] == 0x92 { Tuple } else { Map }, &[k[sym::pick(2)], k[sym::pick(2)]]);
        let mut log = Log::new();
        let mut d = md::Deserializer::from_slice(&b);
        if Probe::new(&ts, t, &mut log).deserialize(&mut d).is_ok() {
            check!(log.intact(b.as_ptr(), b.len()));
            // the log is what the input says
            let mut w = Log::new();
            check!(crate::refdec::mp_any(&b, 0, &mut w).is_ok());
            check!(sym::eq(log.as_slice(), w.as_slice()));
            cover!();
        }
    }
}
