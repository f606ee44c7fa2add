//! M01: MessagePack integers are minimal and exact.
use crate::node::VARIANTS;
use crate::refdec::{self, Head};
use crate::sym;
use crate::util::{One, Out};
use ser_write_msgpack::{ser as ms, de as md};
use serde::{Serialize, Serializer};

fn narrow() { cover!() }
fn wide() { cover!() }
/// read `b` as every integer type: exactly its value, or an error
fn read_all(b: &[u8], v: i128) {
    fn one<'a, T: serde::Deserialize<'a> + Copy>(b: &'a [u8], v: i128, lo: i128, hi: i128, f: fn(T) -> i128) {
        match md::from_slice::<T>(b) {
            Ok((w, n)) => { check!(v >= lo && v <= hi && f(w) == v && n == b.len()); wide() }
            Err(e) => { check!((v < lo || v > hi) && e == md::Error::InvalidInteger); narrow() }
        }
    }
    match sym::pick(10) {
        0 => one::<u8>(b, v, 0, u8::MAX as i128, |x| x as i128),
        1 => one::<u16>(b, v, 0, u16::MAX as i128, |x| x as i128),
        2 => one::<u32>(b, v, 0, u32::MAX as i128, |x| x as i128),
        3 => one::<u64>(b, v, 0, u64::MAX as i128, |x| x as i128),
        4 => one::<usize>(b, v, 0, usize::MAX as i128, |x| x as i128),
        5 => one::<i8>(b, v, i8::MIN as i128, i8::MAX as i128, |x| x as i128),
        6 => one::<i16>(b, v, i16::MIN as i128, i16::MAX as i128, |x| x as i128),
        7 => one::<i32>(b, v, i32::MIN as i128, i32::MAX as i128, |x| x as i128),
        8 => one::<i64>(b, v, i64::MIN as i128, i64::MAX as i128, |x| x as i128),
        _ => one::<isize>(b, v, isize::MIN as i128, isize::MAX as i128, |x| x as i128),
    }
}
fn write<T: Serialize>(x: &T, o: &mut Out<16>) {
    check!(match sym::pick(3) {
        0 => ms::to_writer(o, x),
        1 => ms::to_writer_compact(o, x),
        _ => ms::to_writer_named(o, x),
    }.is_ok());
}
fn minimal(b: &[u8], v: i128) {
    check!(refdec::mp_head(b, 0) == Some((Head::Int(v), b.len())));
    check!(b.len() == refdec::mp_int_size(v));
}
macro_rules! int {
    ($t:ty, $v:expr) => {{
        let v = $v as $t;
        let mut o = Out::<16>::new();
        write(&v, &mut o);
        minimal(o.as_slice(), v as i128);
        sym::emit_bytes(o.as_slice());
        read_all(o.as_slice(), v as i128);
    }};
}
macro_rules! key {
    ($t:ty, $v:expr) => {{
        let v = $v as $t;
        let mut o = Out::<16>::new();
        write(&One(v), &mut o);
        let n = o.len;
        check!(o.buf[0] == 0x81 && o.buf[n - 1] == 0xc0);
        minimal(&o.buf[1..n - 1], v as i128);
        match md::from_slice::<One<$t>>(&o.buf[..n]) { Ok((One(w), m)) => check!(v == w && m == n), Err(_) => check!(false) }
    }};
}
/// every integer encoding, minimal or not
fn any_encoding() {
    let mut b = [0u8; 10];
    sym::fill(&mut b);
    let n = sym::pick(11);
    let b = &b[..n];
    let r = refdec::mp_head(b, 0);
    fn one<'a, T: serde::Deserialize<'a> + Copy>(b: &'a [u8], r: Option<(Head, usize)>, lo: i128, hi: i128, f: fn(T) -> i128) {
        match md::from_slice::<T>(b) {
            Ok((w, n)) => match r { Some((Head::Int(v), m)) => { wide(); check!(v == f(w) && n == m) } _ => check!(false) },
            Err(e) => match r {
                Some((Head::Int(v), _)) => { narrow(); check!(v < lo || v > hi) }
                None => {}
                _ => check!(e == md::Error::ExpectedInteger),
            },
        }
    }
    match sym::pick(10) {
        0 => one::<u8>(b, r, 0, u8::MAX as i128, |x| x as i128),
        1 => one::<u16>(b, r, 0, u16::MAX as i128, |x| x as i128),
        2 => one::<u32>(b, r, 0, u32::MAX as i128, |x| x as i128),
        3 => one::<u64>(b, r, 0, u64::MAX as i128, |x| x as i128),
        4 => one::<usize>(b, r, 0, usize::MAX as i128, |x| x as i128),
        5 => one::<i8>(b, r, i8::MIN as i128, i8::MAX as i128, |x| x as i128),
        6 => one::<i16>(b, r, i16::MIN as i128, i16::MAX as i128, |x| x as i128),
        7 => one::<i32>(b, r, i32::MIN as i128, i32::MAX as i128, |x| x as i128),
        8 => one::<i64>(b, r, i64::MIN as i128, i64::MAX as i128, |x| x as i128),
        _ => one::<isize>(b, r, isize::MIN as i128, isize::MAX as i128, |x| x as i128),
    }
}
/// an enum variant by its number
struct Variant(u32);
impl Serialize for Variant {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_unit_variant("E", self.0, "x") }
}

harnesses! {
    fn h_u8() { int!(u8, sym::u8()) }
    fn h_u16() { int!(u16, sym::u16()) }
    fn h_u32() { int!(u32, sym::u32()) }
    fn h_u64() { int!(u64, sym::u64()) }
    fn h_usize() { int!(usize, sym::u64()) }
    fn h_i8() { int!(i8, sym::u8()) }
    fn h_i16() { int!(i16, sym::u16()) }
    fn h_i32() { int!(i32, sym::u32()) }
    fn h_i64() { int!(i64, sym::u64()) }
    fn h_isize() { int!(isize, sym::u64()) }
    fn h_key_u16() { key!(u16, sym::u16()) }
    fn h_key_i64() { key!(i64, sym::u64()) }
    fn h_key_u64() { key!(u64, sym::u64()) }
    fn h_any() { any_encoding() }
    fn h_variant_number() {
        let v = sym::u32();
        let mut o = Out::<16>::new();
        check!(match sym::pick(2) { 0 => ms::to_writer(&mut o, &Variant(v)), _ => ms::to_writer_compact(&mut o, &Variant(v)) }.is_ok());
        minimal(o.as_slice(), v as i128);
    }
}
