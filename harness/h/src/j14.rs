//! J14: self-describing JSON reading preserves value and type.
use crate::jref::{judge, read, Dec, Fate};
use crate::node::{self, *};
use crate::node::K;
use crate::probe::{Log, Types, T};
use crate::refenc::{self, Enc};
use crate::big::{self, Nest, Wide, WideReader};
use serde::de::DeserializeSeed;
use crate::sym;
use crate::types::*;
use crate::util::{mutated, Out};
use ser_write_json::de as jd;

const BIG: bool = cfg!(feature = "thorough");
fn taken() { cover!() }
fn trailing() { cover!() }
fn refused() { cover!() }
fn any(b: &mut [u8]) {
    let mut ts = Types::new();
    let t = ts.leaf(T::Any);
    match judge(b, &ts, t, Dec::Nope) { Fate::Read => taken(), Fate::Trailing => trailing(), Fate::Refused => refused() }
}
/// the same text with and without a type: the same record
fn typed(b: &[u8], k: T) {
    let n = b.len();
    let (mut x, mut y) = ([0u8; 32], [0u8; 32]);
    x[..n].copy_from_slice(b);
    y[..n].copy_from_slice(b);
    let mut ts = Types::new();
    let (a, t) = (ts.leaf(T::Any), ts.leaf(k));
    let (mut l, mut m) = (Log::new(), Log::new());
    let p = read(&mut x[..n], &ts, a, Dec::Nope, &mut l);
    let q = read(&mut y[..n], &ts, t, Dec::Nope, &mut m);
    if let Ok((left, Ok(()))) = q {
        check!(match p { Ok((l2, Ok(()))) => l2 == left && sym::eq(l.as_slice(), m.as_slice()), _ => false });
        cover!()
    }
}
const ALL: &[K] = &[K::Unit, K::Bool, K::U8, K::I8, K::Str, K::Bytes, K::Some, K::NewtypeVariant, K::UnitVariant, K::Seq, K::TupleVariant, K::Map, K::Struct];
const TEXTS: [&[u8]; 7] = [
    b"{\"k\":[1,\"]\"],\"l\":{}}", b"[[],{\"}\":\"{\"},-15]", b"\"a\\\\\\\"],}\"", b" [ null , true ,false] ", b"{\"\\u00e9\":\"\\u1234\"}", b"[{\"x\":[{\"y\":0}]}]", b"[18446744073709551615]",
];
/// keep numbers from having a fraction or exponent
fn whole(b: &[u8]) {
    let mut ok = true;
    for i in 1..b.len() { ok &= !(matches!(b[i], b'.' | b'e' | b'E') && (b[i - 1] >= b'0' && b[i - 1] <= b'9' || b[i - 1] == b'-' || b[i - 1] == b'+')) }
    sym::assume(ok)
}

harnesses! {
    fn h_bytes() {
        let mut b = sym::bytes::<{ if BIG { 9 } else { 8 } }>();
        let n = sym::pick(b.len() + 1);
        whole(&b[..n]);
        any(&mut b[..n])
    }
    fn h_mutated() {
        let mut o = mutated(TEXTS[sym::pick(TEXTS.len())], if BIG { 3 } else { 2 });
        let n = o.len;
        whole(&o.buf[..n]);
        any(&mut o.buf[..n])
    }
    /// short numbers of every form
    fn h_numbers() {
        let mut b = sym::bytes::<3>();
        let n = sym::pick(4);
        sym::assume(n == 0 || b[0] == b'-' || (b[0] >= b'0' && b[0] <= b'9'));
        any(&mut b[..n])
    }
    /// near the limits of 64 bits
    fn h_limits() {
        let s: &[u8] = [&b"18446744073709551615"[..], b"-9223372036854775808", b"9223372036854775807", b"-0", b"100000000000000000000"][sym::pick(5)];
        let mut o = Out::<80>::new();
        o.put(s);
        let at = s.len() - sym::pick(s.len().min(4));
        for i in 0..2 { if at + i < s.len() { o.buf[at + i] = sym::digit(0, 9) } }
        if sym::flip() { o.push(sym::digit(0, 9)) }
        let n = o.len;
        any(&mut o.buf[..n])
    }
    fn h_digits() {
        let mut b = [0u8; 24];
        let n = 1 + sym::pick(18);
        for i in 0..n { b[i] = sym::digit(0, 9) }
        if sym::flip() { b[0] = b'-' }
        any(&mut b[..n])
    }
    fn h_trees() {
        let mut t = Tree::new();
        let o = Opts { kinds: &[ALL, &[K::Unit, K::U8, K::Str, K::Seq, K::Map], &[K::U8]], keys: &[K::Str, K::U8], max_kids: 2, str_max: 1, small_ints: true, skips: false, plain: true };
        let r = gen(&mut t, 0, &o);
        let mut w = Out::<256>::new();
        refenc::json(&mut w, t.at(r), Enc::Hex);
        sym::assume(w.len <= 80);
        let n = w.len;
        let mut ts = Types::new();
        let a = ts.leaf(T::Any);
        check!(judge(&mut w.buf[..n], &ts, a, Dec::Nope) == Fate::Read);
        cover!()
    }
    /// the record is that of the type-directed reading
    fn h_typed() {
        let b = sym::bytes::<5>();
        let n = sym::pick(6);
        whole(&b[..n]);
        typed(&b[..n], [T::Unit, T::Bool, T::U64, T::I64, T::Str, T::U8, T::I16][sym::pick(7)])
    }
    fn h_typed_long() {
        let mut b = [b'1'; 22];
        let n = 15 + sym::pick(7);
        b[0] = [b'-', b'9', b'1'][sym::pick(3)];
        b[n - 1] = sym::digit(0, 9);
        b[1] = sym::digit(0, 9);
        b[2] = sym::digit(0, 9);
        typed(&b[..n], [T::U64, T::I64][sym::pick(2)])
    }
    /// hundreds of levels
    fn h_deep() {
        let v = Nest::any();
        let mut o = Out::<8192>::new();
        v.json(&mut o);
        let n = o.len;
        let mut d = jd::DeserializerNopeByteStr::from_mut_slice(&mut o.buf[..n]);
        match big::untyped(&v).deserialize(&mut d) { Ok(x) => { check!(x == v.leaf && d.end().is_ok()); cover!() } Err(_) => check!(false) }
    }
    /// hundreds of elements
    fn h_far() {
        let v = Wide::any(&[9, 10, 11, 99, 100, 101, 255, 256, 257, 300]);
        let mut o = Out::<8192>::new();
        v.json(&mut o);
        let n = o.len;
        let mut d = jd::DeserializerNopeByteStr::from_mut_slice(&mut o.buf[..n]);
        check!(WideReader(v, true).deserialize(&mut d).is_ok() && d.end().is_ok());
        cover!()
    }
}
