//! J10: no JSON input can panic, read or write out of bounds or hang.
use crate::jref::{read, Dec, DECS};
use crate::probe::{Log, Types, HOLDERS, T, T::*};
use crate::refdec::{json_str_content, nib, skip_ws};
use crate::sym;
use crate::types::*;
use crate::util::{mutated, utf8_valid, Out};
use serde::de::{Deserialize, IgnoredAny};
use ser_write_json::de as jd;

const BIG: bool = cfg!(feature = "thorough");
fn taken() { cover!() }
fn trailing() { cover!() }
fn refused() { cover!() }
/// the panics, accesses out of bounds and endless loops are the engine's to see
fn run(b: &mut [u8], ts: &Types, t: u8, dec: Dec) {
    let n = b.len();
    let base = b.as_ptr();
    let mut log = Log::new();
    match read(b, ts, t, dec, &mut log) {
        Ok((left, r)) => {
            check!(left <= n && log.intact(base, n));
            match r { Ok(()) => taken(), Err(e) => { check!(e == jd::Error::TrailingCharacters && left > 0); trailing() } }
        }
        Err(_) => refused(),
    }
}
/// no number with fraction or exponent (they are h_floats' and J15's)
fn whole(b: &[u8]) {
    let mut ok = true;
    for i in 1..b.len() { ok &= !(matches!(b[i], b'.' | b'e' | b'E') && (b[i - 1] >= b'0' && b[i - 1] <= b'9' || b[i - 1] == b'-' || b[i - 1] == b'+')) }
    sym::assume(ok)
}
fn probe<const N: usize>(levels: &[&[T]], max: usize, decs: usize) {
    let mut b = sym::bytes::<N>();
    let n = sym::pick(N + 1);
    if !matches!(levels[0][0], F32) { whole(&b[..n]) }
    let mut ts = Types::new();
    let t = ts.gen(levels, max);
    run(&mut b[..n], &ts, t, DECS[sym::pick(decs)])
}
fn entry<X: for<'a> Deserialize<'a>>(b: &mut [u8]) { entry_of(b, |b| jd::from_mut_slice::<X>(b).is_ok(), |b| jd::from_mut_slice_hex_bytes::<X>(b).is_ok(), |b| jd::from_mut_slice_base64_bytes::<X>(b).is_ok()) }
fn entry_of(b: &mut [u8], f: fn(&mut [u8]) -> bool, g: fn(&mut [u8]) -> bool, h: fn(&mut [u8]) -> bool) {
    let f = [f, g, h][sym::pick(3)];
    if f(b) { taken() } else { refused() }
}
macro_rules! entry_ref { ($b:ident, $t:ident) => { entry_of($b, |b| jd::from_mut_slice::<$t>(b).is_ok(), |b| jd::from_mut_slice_hex_bytes::<$t>(b).is_ok(), |b| jd::from_mut_slice_base64_bytes::<$t>(b).is_ok()) } }
type Opt2<'a> = (u8, Option<&'a str>);
type Raw<'a> = &'a serde_bytes::Bytes;
fn entries(b: &mut [u8]) {
    match sym::pick(16) {
        0 => entry::<Point>(b), 1 => entry_ref!(b, Rec), 2 => entry_ref!(b, Bin), 3 => entry::<Strict>(b),
        4 => entry::<Pair>(b), 5 => entry::<Wrap>(b), 6 => entry::<Nothing>(b), 7 => entry::<Shape>(b),
        8 => entry_ref!(b, Opt2), 9 => entry::<[u16; 2]>(b), 10 => entry::<Option<Shape>>(b), 11 => entry_ref!(b, Raw),
        12 => entry::<IgnoredAny>(b), 13 => entry::<char>(b), 14 => entry::<f32>(b), _ => entry::<Result<u8, bool>>(b),
    }
}
/// the reader's own interface for walking through a text
fn walk<const N: usize>(steps: usize) {
    let mut b = sym::bytes::<N>();
    let orig = b;
    let n = sym::pick(N + 1);
    let base = b.as_ptr() as usize;
    let b = &mut b[..n];
    let mut d = jd::DeserializerNopeByteStr::from_mut_slice(b);
    let orig = &orig[..n];
    let mut at = 0;
    for _ in 0..steps {
        match sym::pick(12) {
            0 => match d.peek() { Ok(c) => check!(at < n && c == orig[at]), Err(e) => check!(at >= n && e == jd::Error::UnexpectedEof) },
            1 => { let k = sym::pick(n - at + 1); d.eat_some(k); at += k }
            2 => {
                let j = skip_ws(orig, at);
                match d.eat_whitespace() { Ok(c) => { check!(j < n && c == orig[j]); at = j } Err(e) => { check!(j == n && e == jd::Error::UnexpectedEof); return } }
            }
            3 => match d.input_mut() { Ok(s) => check!(s.len() == n - at && s.as_ptr() as usize == base + at), Err(_) => check!(false) },
            4 => {
                let k = sym::pick(n - at + 1);
                let m = sym::pick(n - at - k + 1);
                let s = d.split_input(k, m);
                check!(s.len() == k && s.as_ptr() as usize == base + at && sym::eq(s, &orig[at..at + k]));
                at += k + m
            }
            5 => { let j = skip_ws(orig, at); match d.parse_unsigned::<u8>() { Ok(v) => { at = digits(orig, j); check!(at > j && v == value(orig, j, at) as u8) } Err(_) => return } }
            6 => { let j = skip_ws(orig, at); match d.parse_signed::<i8>() { Ok(v) => {
                let m = (j < n && orig[j] == b'-') as usize;
                at = digits(orig, j + m);
                let x = value(orig, j + m, at) as i8;
                check!(at > j + m && v == if m == 1 { x.wrapping_neg() } else { x })
            } Err(_) => return } }
            7 => match d.parse_token_content(b"ab") { Ok(()) => { check!(sym::eq(&orig[at..at + 2], b"ab")); at += 2 } Err(_) => check!(n - at < 2 || &orig[at..at + 2] != b"ab") },
            k => {
                let mut want = Out::<80>::new();
                let end = match k { 8 | 9 => json_str_content(orig, at, &mut want), 10 => hex(orig, at, &mut want), _ => Some(at) };
                let got: Result<&[u8], jd::Error> = match k { 8 => d.parse_str_bytes_content(), 9 => d.parse_str_content().map(|s| s.as_bytes()), 10 => d.parse_hex_bytes_content(), _ => d.parse_base64_bytes_content() };
                match got {
                    Ok(s) => {
                        let p = s.as_ptr() as usize;
                        check!(s.is_empty() || p >= base + at && p + s.len() <= base + n);
                        if k < 11 { check!(end.is_some() && sym::eq(s, want.as_slice())); check!(k == 8 || k == 10 || utf8_valid(s)) }
                        let left = d.remaining_len();
                        check!(left < n - at);
                        at = n - left;
                        if k < 11 { check!(end == Some(at)) }
                    }
                    Err(_) => { if k < 11 { check!(end.is_none() || k == 9 && !utf8_valid(want.as_slice())) } return }
                }
            }
        }
        check!(d.remaining_len() == n - at);
    }
    check!(d.end().is_ok() == (skip_ws(orig, at) == n));
    taken()
}
fn digits(b: &[u8], mut i: usize) -> usize {
    if i < b.len() && b[i] == b'0' { return i + 1 }
    while i < b.len() && b[i].is_ascii_digit() { i += 1 }
    i
}
fn value(b: &[u8], i: usize, j: usize) -> u32 { let mut v = 0u32; for c in &b[i..j] { v = v * 10 + (*c as u32 - 48) } v }
fn hex(b: &[u8], mut i: usize, o: &mut Out<80>) -> Option<usize> {
    loop {
        if *b.get(i)? == b'"' { return Some(i + 1) }
        o.push(nib(b[i])? << 4 | nib(*b.get(i + 1)?)?);
        i += 2
    }
}
const LEAVES: &[T] = &[Unit, UnitStruct, Bool, U8, U16, U32, U64, I8, I16, I32, I64, Char, Str, String, Bytes, ByteBuf, Ident];
const TEXTS: [&[u8]; 8] = [
    b"{\"x\":-12,\"y\":7}", b"{\"name\":\"a\\n\",\"id\":65535,\"opt\":true}", b"{\"data\":\"0aFF\",\"n\":1}", b"{\"Box\":{\"w\":1,\"h\":2}}", b"{\"Line\":[1,2]}", b"{\"data\":[1,22],\"u\":[{}]}", b"\"Dot\"", b"{\"\\u0061\":1,\"b\":null}",
];

harnesses! {
    fn h_scalars() { probe::<{ if BIG { 8 } else { 7 } }>(&[LEAVES], 0, 3) }
    fn h_floats() { probe::<4>(&[&[F32, F64]], 0, 1) }
    fn h_strings() {
        let mut b = sym::bytes::<{ if BIG { 10 } else { 9 } }>();
        b[0] = b'"';
        let n = sym::pick(b.len() + 1);
        let mut ts = Types::new();
        let t = ts.leaf([Str, Bytes, Char, Ident, Any, Ignored][sym::pick(6)]);
        let d = if ts.a[t as usize].k == Bytes { DECS[sym::pick(3)] } else { Dec::Nope };
        run(&mut b[..n], &ts, t, d)
    }
    fn h_ignored() { probe::<{ if BIG { 11 } else { 9 } }>(&[&[Ignored]], 0, 1) }
    fn h_any() { probe::<{ if BIG { 10 } else { 9 } }>(&[&[Any]], 0, 1) }
    fn h_holders() { probe::<{ if BIG { 8 } else { 7 } }>(&[HOLDERS, &[Bool, U8, Str, Any, Ignored, Bytes], &[U16, Str]], 1, 1) }
    fn h_two() { probe::<{ if BIG { 9 } else { 7 } }>(&[&[Tuple, TupleStruct, Struct, Enum], &[U16, Str, Ignored], &[U16]], 2, 1) }
    fn h_nested() { probe::<{ if BIG { 6 } else { 5 } }>(&[HOLDERS, HOLDERS, &[U8, Str]], 1, 1) }
    fn h_entries() {
        let mut b = sym::bytes::<{ if BIG { 8 } else { 7 } }>();
        let n = sym::pick(b.len() + 1);
        whole(&b[..n]);
        entries(&mut b[..n])
    }
    fn h_entries_mutated() {
        let mut o = mutated(TEXTS[sym::pick(TEXTS.len())], if BIG { 3 } else { 2 });
        let n = o.len;
        entries(&mut o.buf[..n])
    }
    fn h_walk() { walk::<{ if BIG { 6 } else { 5 } }>(if BIG { 3 } else { 2 }) }
    #[cfg(feature = "alloc")]
    fn h_owned() {
        use alloc::{boxed::Box, collections::BTreeMap, string::String, vec::Vec};
        let mut b = sym::bytes::<{ if BIG { 8 } else { 7 } }>();
        let n = sym::pick(b.len() + 1);
        let b = &mut b[..n];
        whole(&b[..n]);
        match sym::pick(9) {
            0 => entry::<Vec<u8>>(b), 1 => entry::<Vec<u64>>(b), 2 => entry::<BTreeMap<u8, u8>>(b), 3 => entry::<String>(b),
            4 => entry::<Vec<Box<[u8]>>>(b), 5 => entry::<serde_bytes::ByteBuf>(b), 6 => entry::<BTreeMap<String, bool>>(b),
            7 => entry::<Vec<String>>(b), _ => entry::<Box<str>>(b),
        }
    }
    #[cfg(feature = "alloc")]
    fn h_self_describing() {
        let mut b = sym::bytes::<{ if BIG { 4 } else { 4 } }>();
        let n = sym::pick(b.len() + 1);
        let b = &mut b[..n];
        whole(&b[..n]);
        if sym::flip() { entry::<Loose>(b) } else { entry::<Tagged>(b) }
    }
    #[cfg(feature = "alloc")]
    fn h_self_describing_mutated() {
        let mut o = mutated([&b"{\"t\":\"A\",\"x\":1}"[..], b"{\"x\":1,\"t\":\"B\"}", b"{\"a\":1}", b"[1,200]"][sym::pick(4)], 1);
        let n = o.len;
        if sym::flip() { entry::<Loose>(&mut o.buf[..n]) } else { entry::<Tagged>(&mut o.buf[..n]) }
    }
    /// values nested as deep as the input says, skipped
    fn h_deep() {
        let mut b = [0u8; 3000];
        let (open, step) = [(&b"["[..], 1), (b"{\"\":", 4), (b"[{\"a\":", 6)][sym::pick(3)];
        let n = 2900 / step;
        for i in 0..n { b[i * step..][..step].copy_from_slice(open) }
        let k = n * step;
        b[k] = sym::u8();
        if jd::from_mut_slice::<IgnoredAny>(&mut b[..k + 1]).is_ok() { check!(false) } else { refused() }
        if jd::from_mut_slice::<Strict>(&mut b[..k + 1]).is_ok() { check!(false) } else { refused() }
    }
}
