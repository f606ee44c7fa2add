//! J15: finite floats pass through the formatter, the others are null;
//! tokens pass to the decimal parser of the type asked for.
use crate::jref::{judge, number, Dec, Fate};
use crate::node::{FIELDS, VARIANTS};
use crate::probe::{Types, T};
use crate::sym;
use crate::util::{mutated, Out};
use serde::ser::{SerializeMap, SerializeSeq, SerializeStruct, SerializeStructVariant, SerializeTuple};
use serde::{Serialize, Serializer};
use ser_write_json::de as jd;
use ser_write_json::ser as js;

/// a float in every place a value can stand
struct At<F>(usize, F);
const PLACES: usize = 10;
impl<F: Serialize> Serialize for At<F> {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        let v = &self.1;
        match self.0 {
            0 => v.serialize(s),
            1 => s.serialize_some(v),
            2 => s.serialize_newtype_struct("N", v),
            3 => s.serialize_newtype_variant("E", 0, VARIANTS[0], v),
            4 => { let mut q = s.serialize_seq(Some(2))?; q.serialize_element(v)?; q.serialize_element(v)?; q.end() }
            5 => { let mut q = s.serialize_tuple(2)?; q.serialize_element(&true)?; q.serialize_element(v)?; q.end() }
            6 => { let mut m = s.serialize_map(None)?; m.serialize_entry("k", v)?; m.end() }
            7 => { let mut m = s.serialize_struct("S", 2)?; m.serialize_field(FIELDS[0], v)?; m.serialize_field(FIELDS[1], v)?; m.end() }
            8 => { let mut m = s.serialize_struct_variant("E", 0, VARIANTS[0], 1)?; m.serialize_field(FIELDS[0], v)?; m.end() }
            _ => s.serialize_some(&Inner(v)),
        }
    }
}
struct Inner<'a, F>(&'a F);
impl<'a, F: Serialize> Serialize for Inner<'a, F> {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { let mut q = s.serialize_seq(Some(1))?; q.serialize_element(&(self.0,))?; q.end() }
}
/// the text around the values
fn around(at: usize, v: &[u8], o: &mut Out<160>) {
    let mut put = |p: &[&[u8]]| for x in p { o.put(x) };
    let (f0, f1, e) = (FIELDS[0].as_bytes(), FIELDS[1].as_bytes(), VARIANTS[0].as_bytes());
    match at {
        0..=2 => put(&[v]),
        3 => put(&[b"{\"", e, b"\":", v, b"}"]),
        4 => put(&[b"[", v, b",", v, b"]"]),
        5 => put(&[b"[true,", v, b"]"]),
        6 => put(&[b"{\"k\":", v, b"}"]),
        7 => put(&[b"{\"", f0, b"\":", v, b",\"", f1, b"\":", v, b"}"]),
        8 => put(&[b"{\"", e, b"\":{\"", f0, b"\":", v, b"}}"]),
        _ => put(&[b"[[", v, b"]]"]),
    }
}
fn null() { cover!() }
fn finite() { cover!() }
fn write<F: Serialize + ryu_js::Float>(v: F, is: bool) {
    let mut b = ryu_js::Buffer::new();
    let text: &[u8] = if is { finite(); b.format_finite(v).as_bytes() } else { null(); b"null" };
    let at = sym::pick(PLACES);
    let mut want = Out::<160>::new();
    around(at, text, &mut want);
    let mut w = Out::<160>::new();
    let x = At(at, v);
    check!(match sym::pick(4) {
        0 => js::to_writer(&mut w, &x).is_ok(),
        1 => js::to_writer_hex_bytes(&mut w, &x).is_ok(),
        2 => js::to_writer_base64_bytes(&mut w, &x).is_ok(),
        _ => js::to_writer_pass_bytes(&mut w, &x).is_ok(),
    });
    check!(sym::eq(w.as_slice(), want.as_slice()))
}
const TEXTS: [&[u8]; 9] = [b"-1.25e-7", b"0.1", b"16777217", b"3.4028236e38", b"1e400", b"null", b"-0.0", b"1.7976931348623157e308", b"123456789012345680000"];
const EXACT: [&[u8]; 16] = [
    b"1.000000059604644775390626", b"1.00000017881393432617187499", b"16777217.0", b"16777217.000000001", b"9007199254740993.0", b"9007199254740992.99999999999999999999",
    b"3.4028235677973366e38", b"3.4028235677973365e+38", b"7.006492321624086e-46", b"7.006492321624085e-46", b"7.038531e-26", b"2.4703282292062328e-324",
    b"1.7976931348623158e308", b"1.7976931348623159E308", b"0.10000000000000000000000000000000000000000000000001", b"184467440737095516150000000000000000e-17",
];
fn not_digit() -> u8 { let b = sym::u8(); sym::assume(b < b'0' || b > b'9'); b }
fn taken() { cover!() }
fn trailing() { cover!() }
fn refused() { cover!() }
fn asked() -> T { if sym::flip() { T::F32 } else { T::F64 } }
fn text(b: &mut [u8], ts: &Types, t: u8) {
    match judge(b, ts, t, Dec::Nope) { Fate::Read => taken(), Fate::Trailing => trailing(), Fate::Refused => refused() }
}

harnesses! {
    #[cfg(feature = "ryu")]
    fn h_write_f32() {
        let v = f32::from_bits(sym::u32());
        write(v, v.to_bits() & 0x7f80_0000 != 0x7f80_0000)
    }
    #[cfg(feature = "ryu")]
    fn h_write_f64() {
        let v = f64::from_bits(sym::u64());
        write(v, v.to_bits() & 0x7ff0_0000_0000_0000 != 0x7ff0_0000_0000_0000)
    }
    /// the formatter's text of some values, read back (it writes no sign of zero)
    #[cfg(not(feature = "ryu"))]
    fn h_back() {
        let v: f64 = [
            0.0, 1.0, -1.5, 0.1, 1e21, 1e-7, 123456789012345680000.0, 5e-324, f64::MAX, f64::MIN_POSITIVE, -2.2250738585072011e-308, 9007199254740993.0, 1.0 / 3.0, 16777217.0, 3.4028234663852886e38,
        ][sym::pick(15)];
        let mut o = Out::<80>::new();
        check!(js::to_writer(&mut o, &v).is_ok() && number(o.as_slice()));
        let n = o.len;
        check!(match jd::from_mut_slice::<f64>(&mut o.buf[..n]) { Ok(w) => w == v, Err(_) => false });
        let v = v as f32;
        let mut o = Out::<80>::new();
        check!(js::to_writer(&mut o, &v).is_ok());
        let n = o.len;
        check!(match jd::from_mut_slice::<f32>(&mut o.buf[..n]) { Ok(w) => if v.is_finite() { w == v } else { w.is_nan() }, Err(_) => false });
        cover!()
    }
    /// numerals that a detour over another width, or digits cut off, would round differently, with any byte but a digit around
    #[cfg(not(feature = "ryu"))]
    fn h_exact() {
        let mut o = Out::<160>::new();
        let kind = sym::pick(3);
        if kind == 1 { o.push(b'[') } else if kind == 2 { o.put(b"{\"k\":") }
        if sym::flip() { o.push(not_digit()) }
        if sym::flip() { o.push(b'-') }
        o.put(EXACT[sym::pick(EXACT.len())]);
        if sym::flip() { o.push(not_digit()) }
        if kind == 1 { o.put(b",0]") } else if kind == 2 { o.push(b'}') }
        let n = o.len;
        let mut ts = Types::new();
        let k = ts.leaf(T::Str);
        let f = ts.leaf([T::F32, T::F64, T::Any][sym::pick(3)]);
        let t = match kind { 0 => f, 1 => ts.of(T::Seq, &[f]), _ => ts.of(T::Map, &[k, f]) };
        text(&mut o.buf[..n], &ts, t)
    }
    #[cfg(not(feature = "ryu"))]
    fn h_read() {
        let mut b = sym::bytes::<4>();
        let n = sym::pick(5);
        let mut ts = Types::new();
        let t = ts.leaf(asked());
        text(&mut b[..n], &ts, t)
    }
    #[cfg(not(feature = "ryu"))]
    fn h_read_mutated() {
        let mut o = mutated(TEXTS[sym::pick(TEXTS.len())], 1);
        let n = o.len;
        let mut ts = Types::new();
        let t = ts.leaf(asked());
        text(&mut o.buf[..n], &ts, t)
    }
    #[cfg(not(feature = "ryu"))]
    /// between other values
    fn h_read_among() {
        let mut o = Out::<80>::new();
        o.put(b"{\"k\":[");
        let b = sym::bytes::<3>();
        o.put(&b[..sym::pick(4)]);
        o.put([&b",-0.5]}"[..], b",\"x\"]}", b"]}"][sym::pick(3)]);
        let n = o.len;
        let mut ts = Types::new();
        let k = ts.leaf(T::Str);
        let f = ts.leaf(asked());
        let s = ts.of(T::Seq, &[f]);
        let t = ts.of(T::Map, &[k, s]);
        text(&mut o.buf[..n], &ts, t)
    }
    #[cfg(not(feature = "ryu"))]
    /// a float read without a type
    fn h_read_any() {
        let mut o = mutated(TEXTS[sym::pick(TEXTS.len())], 1);
        let n = o.len;
        let mut ts = Types::new();
        let t = ts.leaf(T::Any);
        text(&mut o.buf[..n], &ts, t)
    }
}
