//! M07: skipping a MessagePack value consumes exactly that value.
use crate::node::{self, *};
use crate::node::K::*;
use crate::refdec::{mp_head, mp_skip, Head};
use crate::refenc::{self, Flavour};
use crate::sym;
use crate::util::Out;
use serde::de::{Deserialize, DeserializeSeed, Deserializer, IgnoredAny, MapAccess, SeqAccess, Visitor};
use core::fmt;
use ser_write_msgpack::de as md;

const BIG: bool = cfg!(feature = "thorough");
fn skipped() { cover!() }
fn refused() { cover!() }
/// both ways of skipping one value
fn skip(b: &[u8]) {
    let want = mp_skip(b, 0);
    let mut d = md::Deserializer::from_slice(b);
    match d.eat_message() {
        Ok(()) => { check!(want.is_some() && d.end() == Ok(b.len() - want.unwrap_or(0))); skipped() }
        Err(e) => {
            check!(want.is_none());
            check!(match e { md::Error::UnexpectedEof => true, md::Error::ReservedCode => { let mut r = false; for c in b { r |= *c == 0xc1 } r } _ => false });
            refused()
        }
    }
    match md::from_slice::<IgnoredAny>(b) {
        Ok((_, m)) => check!(want == Option::Some(m)),
        Err(_) => check!(want.is_none()),
    }
}
/// a struct with fields `a` (0) and `bc` (1), in derived fashion
struct Two(u8, u8);
impl<'de> Deserialize<'de> for Two {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Two, D::Error> {
        struct V;
        impl<'de> Visitor<'de> for V {
            type Value = Two;
            fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str("struct") }
            fn visit_map<A: MapAccess<'de>>(self, mut m: A) -> Result<Two, A::Error> {
                let (mut a, mut b) = (255, 255);
                while let Option::Some(k) = m.next_key_seed(FieldKey(2))? {
                    match k { 0 => a = m.next_value()?, 1 => b = m.next_value()?, _ => { m.next_value::<IgnoredAny>()?; } }
                }
                Ok(Two(a, b))
            }
            fn visit_seq<A: SeqAccess<'de>>(self, mut s: A) -> Result<Two, A::Error> {
                let a = s.next_element::<u8>()?.unwrap_or(254);
                s.next_element::<IgnoredAny>()?;
                let b = s.next_element::<u8>()?.unwrap_or(254);
                Ok(Two(a, b))
            }
        }
        d.deserialize_struct("Two", &FIELDS[..2], V)
    }
}
/// `v` where a value is skipped, between things that are read
fn among(v: &[u8], form: usize) {
    let mut o = Out::<512>::new();
    let (x, y) = (sym::u8() & 0x7f, sym::u8() & 0x7f);
    match form {
        0 => { o.put(&[0x83, 0xa1, b'a', x, 0xa2, b'z', b'z']); o.put(v); o.put(&[0xa2, b'b', b'c', y]) }
        1 => { o.put(&[0x83, 0x07]); o.put(v); o.put(&[0x00, x, 0xa2, b'b', b'c', y]) }
        2 => { o.put(&[0x83, 0x00, x, 0x01, y, 0xcd, 0x01, 0x00]); o.put(v) }
        3 => { o.put(&[0x93, x]); o.put(v); o.put(&[y]) }
        _ => { o.put(&[0xde, 0x00, 0x03, 0xa0]); o.put(v); o.put(&[0xcc, 0x01, y, 0xd9, 0x01, b'a', x]) }
    }
    let n = o.len;
    let ok = mp_skip(v, 0) == Option::Some(v.len());
    match md::from_slice::<Two>(&o.buf[..n]) {
        Ok((t, m)) => if ok { check!(t.0 == x && t.1 == y && m == n); cover!() },
        Err(_) => check!(!ok),
    }
}
/// an extension value with symbolic content
fn ext(o: &mut Out<256>) {
    let k = sym::pick(8);
    o.push([0xd4, 0xd5, 0xd6, 0xd7, 0xd8, 0xc7, 0xc8, 0xc9][k]);
    let n = if k < 5 { 1 << k } else { let n = sym::pick(4); for _ in 0..[0, 1, 3][k - 5] { o.push(0) } o.push(n as u8); n };
    o.push(sym::u8());
    for _ in 0..n { o.push(sym::u8()) }
}
fn tree(t: &mut Tree, opts: &Opts, f: Flavour) -> Out<256> {
    let r = gen(t, 0, opts);
    let mut o = Out::<256>::new();
    refenc::msgpack(&mut o, t.at(r), f);
    o
}
const LEAVES: &[K] = &[Unit, Bool, U8, I8, U16, I32, U64, F32, F64, Str, Bytes, Char];
const ALL: &[K] = &[Unit, U8, Str, Bytes, NewtypeVariant, Seq, TupleVariant, Map, Struct];

harnesses! {
    fn h_bytes() {
        let b = sym::bytes::<{ if BIG { 6 } else { 5 } }>();
        let n = sym::pick(b.len() + 1);
        skip(&b[..n])
    }
    /// every marker with content enough for it; counted values are small integers
    fn h_markers() {
        let mut b = [0u8; 40];
        sym::fill(&mut b);
        for i in 5..40 { sym::assume(b[i] < 0x80) }
        let n = [40, 33, 18, 10, 9, 6, 5, 3, 2, 1][sym::pick(10)];
        sym::assume(n != 40 || b[0] != 0xde && b[0] != 0xdf && b[0] != 0xdc && b[0] != 0xdd);
        sym::assume(b[0] < 0x80 || b[0] >= 0xa0 && b[0] < 0xdc || b[0] >= 0xe0 || { let mut s = true; for i in 1..5 { s &= b[i] < 0x80 } s });
        skip(&b[..n])
    }
    /// lengths up to four bytes wide: only the header is looked at, so the
    /// input may be said to be of any size
    fn h_wide() {
        let b = sym::bytes::<8>();
        let c = b[0];
        sym::assume((c >= 0xa0 && c < 0xc0) || (c >= 0xc4 && c < 0xca) || (c >= 0xd4 && c <= 0xdb));
        let n = sym::u64() as usize;
        sym::assume(n >= 8 && n < 1 << 40);
        let huge = unsafe { core::slice::from_raw_parts(b.as_ptr(), n) };
        let mut d = md::Deserializer::from_slice(huge);
        let size = match mp_head(&b, 0) { Option::Some((Head::Str(l) | Head::Bin(l) | Head::Ext(l), i)) => l + i, _ => 0 };
        match d.eat_message() {
            Ok(()) => { check!(size != 0 && size <= n && d.end() == Ok(n - size)); cover!() }
            Err(e) => { check!(size > n && e == md::Error::UnexpectedEof); cover!() }
        }
    }
    fn h_among_bytes() {
        let b = sym::bytes::<{ if BIG { 5 } else { 4 } }>();
        let n = 1 + sym::pick(b.len());
        among(&b[..n], sym::pick(5))
    }
    fn h_among_trees() {
        let mut t = Tree::new();
        let f = [Flavour::Compact, Flavour::Index, Flavour::Named][sym::pick(3)];
        let o = tree(&mut t, &Opts { kinds: &[ALL, &[U8, Bytes, Seq, Map], &[Str]], keys: &[U8], max_kids: 2, str_max: 1, small_ints: true, skips: false, plain: true }, f);
        among(o.as_slice(), sym::pick(5))
    }
    fn h_among_leaves() {
        let mut t = Tree::new();
        let o = tree(&mut t, &Opts { kinds: &[LEAVES], keys: &[U8], max_kids: 0, str_max: 4, small_ints: false, skips: false, plain: false }, Flavour::Index);
        among(o.as_slice(), sym::pick(5))
    }
    /// extension values, bare and inside containers
    fn h_ext() {
        let mut o = Out::<256>::new();
        match sym::pick(4) {
            0 => ext(&mut o),
            1 => { o.put(&[0x92]); ext(&mut o); o.push(5) }
            2 => { o.put(&[0x82, 0x01]); ext(&mut o); ext(&mut o); o.put(&[0xa1, b'x']) }
            _ => { o.put(&[0xdc, 0, 2, 0x91]); ext(&mut o); o.push(0xc0) }
        }
        among(o.as_slice(), sym::pick(5))
    }
    fn h_deep() {
        let mut b = [0u8; 1500];
        let (kind, step) = [(0x91, 1), (0x81, 2), (0xdd, 5), (0xde, 4)][sym::pick(4)];
        let n = 1500 / step - 1;
        for i in 0..n {
            b[i * step] = kind;
            if step == 5 { b[i * step + 4] = 1 }
            if step == 4 { b[i * step + 2] = 1 }
        }
        b[n * step] = sym::u8();
        skip(&b[..n * step + 1])
    }
    /// hundreds of elements or levels, one byte replaced
    fn h_many() {
        let mut o = Out::<4096>::new();
        if sym::flip() { crate::big::Wide::any(&[1, 15, 16, 31, 32, 127, 128, 255, 256, 257, 300]).mp(&mut o) }
        else { crate::big::Nest::any().mp(&mut o, [Flavour::Compact, Flavour::Index, Flavour::Named][sym::pick(3)]) }
        if sym::flip() { let at = o.len - 1; o.buf[at] = sym::u8() }
        else { let at = [0, 1, 2, o.len / 2][sym::pick(4)].min(o.len - 1); o.buf[at] = [0, 0x80, 0x81, 0x90, 0x91, 0xa1, 0xc1, 0xdc, 0xde, 0xd9][sym::pick(10)] }
        o.put(&[0xc0]);
        skip(&o.as_slice()[..o.len - sym::pick(2)])
    }
}
