//! J13: unknown JSON fields are skipped exactly.
use crate::jref::{judge, Dec, Fate};
use crate::probe::{Types, T};
use crate::sym;
use crate::types::*;
use crate::util::{far, mutated, windowed, Out};
use serde::de::IgnoredAny;
use ser_write_json::de as jd;

const BIG: bool = cfg!(feature = "thorough");
type O = Out<80>;
fn skipped() { cover!() }
fn refused() { cover!() }
fn note(f: Fate) { match f { Fate::Read => skipped(), _ => refused() } }
fn ignored(b: &mut [u8]) {
    let mut ts = Types::new();
    let t = ts.leaf(T::Ignored);
    note(judge(b, &ts, t, Dec::Nope));
}
/// `v` where a value is skipped, between fields that are read
fn among(v: &[u8], form: usize) {
    let mut o = O::new();
    let (x, y) = (sym::digit(0, 9), sym::digit(0, 9));
    match form {
        0 => { o.put(b"{\"a\":\""); o.push(x); o.put(b"\",\"zz\":"); o.put(v); o.put(b",\"bc\":"); o.push(y); o.put(b"}") }
        1 => { o.put(b"{\"z\\\"\":"); o.put(v); o.put(b" , \"bc\":"); o.push(y); o.put(b",\"a\":\""); o.push(x); o.put(b"\"}") }
        2 => { o.put(b"{\"bc\":"); o.push(y); o.put(b",\"a\":\"\",\"\":"); o.put(v); o.put(b"}") }
        _ => { o.put(b"[{\"q\":"); o.put(v); o.put(b",\"a\":\"\\n\",\"bc\":"); o.push(y); o.put(b"}]") }
    }
    let mut ts = Types::new();
    let (s, u) = (ts.leaf(T::Str), ts.leaf(T::U8));
    let mut t = ts.of(T::Struct, &[s, u]);
    if form == 3 { t = ts.of(T::Seq, &[t]) }
    let n = o.len;
    note(judge(&mut o.buf[..n], &ts, t, Dec::Nope));
}
/// elements of a sequence that are skipped
fn between(v: &[u8]) {
    let mut o = O::new();
    o.put(b"[7,");
    o.put(v);
    o.put(b",\"e\"]");
    let mut ts = Types::new();
    let (u, i, s) = (ts.leaf(T::U8), ts.leaf(T::Ignored), ts.leaf(T::Str));
    let t = ts.of(T::Tuple, &[u, i, s]);
    let n = o.len;
    note(judge(&mut o.buf[..n], &ts, t, Dec::Nope));
}
const TEXTS: [&[u8]; 6] = [
    b"{\"k\":[1,\"]\"],\"l\":{}}", b"[[],{\"}\":\"{\"},-1.5e+3]", b"\"a\\\\\\\"],}\"", b" [ null , true ,false] ", b"{\"\\u00e9\":\"\\ud834\"}", b"[{\"x\":[{\"y\":0}]}]",
];

harnesses! {
    fn h_bytes() {
        let mut b = sym::bytes::<{ if BIG { 10 } else { 9 } }>();
        let n = sym::pick(b.len() + 1);
        ignored(&mut b[..n])
    }
    fn h_among_bytes() {
        let b = sym::bytes::<{ if BIG { 6 } else { 5 } }>();
        let n = 1 + sym::pick(b.len());
        among(&b[..n], sym::pick(4))
    }
    fn h_between_bytes() {
        let b = sym::bytes::<{ if BIG { 7 } else { 6 } }>();
        let n = 1 + sym::pick(b.len());
        between(&b[..n])
    }
    /// whatever is quoted is passed over up to the closing quote
    fn h_texts() {
        let mut v = [b'"'; 10];
        let n = sym::pick(if BIG { 8 } else { 7 });
        sym::fill(&mut v[1..1 + n]);
        among(&v[..n + 2], sym::pick(2))
    }
    /// long values with two arbitrary bytes anywhere
    fn h_long() {
        let n = 6 + sym::pick(if BIG { 35 } else { 28 });
        let (open, fill, close): (&[u8], &[u8], &[u8]) = [(&b"\""[..], &b"abcdefgh"[..], &b"\""[..]), (b"[", b"1, 22,\"]\",", b"0]"), (b"", b"12345678", b""), (b"", b" \n\t\r", b"0"), (b"{\"", b"a\":[],\"", b"\":0}"), (b"\"", b"\\\"a\\\\]}", b"\"")][sym::pick(6)];
        let mut v = O::new();
        v.put(open);
        v.put(windowed::<80>(fill, n, sym::pick(n - 1), 2).as_slice());
        v.put(close);
        among(v.as_slice(), 0)
    }
    /// longer than a byte counts
    fn h_far() {
        let (n, at) = far();
        let (open, fill, close): (&[u8], &[u8], &[u8]) = [(&b"\""[..], &b"abcdefgh"[..], &b"\""[..]), (b"[", b"1, 22,\"]\",", b"0]"), (b"", b"12345678", b""), (b"", b" \n\t\r", b"0"), (b"{\"", b"a\":[],\"", b"\":0}"), (b"\"", b"\\\"a\\\\]}", b"\"")][sym::pick(6)];
        let mut o = Out::<300>::new();
        o.put(b"[");
        o.put(open);
        o.put(windowed::<300>(fill, n, at, 2).as_slice());
        o.put(close);
        let mut q = Out::<300>::new();
        q.put(o.as_slice());
        q.put(b"]");
        o.put(b",\"e\"]");
        let ts = Types::new();
        // the value itself, before the last bracket
        let mut doc = crate::jref::Doc::new(&q.as_slice()[..q.len - 1], &ts, Dec::Nope);
        let end = doc.skip(1);
        let lax = doc.lax;
        let whole = end == Some(q.len - 1);
        let l = o.len;
        match jd::from_mut_slice::<(IgnoredAny, &str)>(&mut o.buf[..l]) {
            Ok(r) => { check!(r.1 == "e"); check!(whole); cover!() }
            Err(_) => { check!(!whole || lax); cover!() }
        }
    }
    /// hundreds of elements or levels, one byte replaced
    fn h_many() {
        let mut o = Out::<4096>::new();
        o.push(b'[');
        if sym::flip() { crate::big::Wide::any(&[1, 10, 127, 128, 255, 256, 257, 300]).json(&mut o) }
        else { crate::big::Nest::any().json(&mut o) }
        let size = o.len;
        let at = [1, 2, size / 2, size - 2, size - 1][sym::pick(5)];
        o.buf[at] = sym::u8();
        let mut q = Out::<4096>::new();
        q.put(o.as_slice());
        q.push(b']');
        o.put(b",\"e\"]");
        let ts = Types::new();
        let mut doc = crate::jref::Doc::new(q.as_slice(), &ts, Dec::Nope);
        let whole = doc.skip(1) == Some(size);
        let lax = doc.lax;
        let l = o.len;
        match jd::from_mut_slice::<(IgnoredAny, &str)>(&mut o.buf[..l]) {
            Ok(r) => { check!(r.1 == "e"); check!(whole); cover!() }
            Err(_) => { check!(!whole || lax); cover!() }
        }
    }
    /// long runs of backslashes before a quote
    fn h_backslashes() {
        let mut v = [b'"'; 12];
        let n = sym::pick(8);
        for i in 0..n { v[1 + i] = b'\\' }
        v[1 + n] = sym::u8();
        among(&v[..n + 3], 0)
    }
    fn h_mutated() {
        let o = mutated(TEXTS[sym::pick(TEXTS.len())], if BIG { 4 } else { 3 });
        among(o.as_slice(), 0)
    }
    fn h_mutated_alone() {
        let mut o = mutated(TEXTS[sym::pick(TEXTS.len())], 2);
        let n = o.len;
        ignored(&mut o.buf[..n])
    }
    /// keys of a skipped object are any text, as values are
    fn h_keys() {
        let mut v = *b"{\"\\uxxxx\":[1],\"k\":\"\\uxxxx\"}";
        let at = if sym::flip() { 4 } else { 21 };
        sym::fill(&mut v[at..at + 4]);
        for k in 0..4 { if at == 4 { v[21 + k] = b'0' } else { v[4 + k] = b'0' } }
        among(&v, 1)
    }
    /// numbers in all their forms
    fn h_numbers() {
        let mut v = [0u8; 8];
        let n = 1 + sym::pick(if BIG { 8 } else { 7 });
        for i in 0..n { v[i] = sym::u8(); sym::assume(matches!(v[i], b'0' | b'7' | b'-' | b'+' | b'.' | b'e' | b'E' | b',')) }
        between(&v[..n])
    }
    /// any depth
    fn h_deep() {
        let mut b = [0u8; 2048];
        let (open, close): (&[u8], u8) = [(&b"["[..], b']'), (&b"{\"\":"[..], b'}'), (&b"[0,"[..], b']')][sym::pick(3)];
        let n = 1600 / (open.len() + 1);
        let mut at = 0;
        for _ in 0..n { b[at..at + open.len()].copy_from_slice(open); at += open.len() }
        b[at] = b'1';
        at += 1;
        for i in 0..n { b[at + i] = close }
        at += n;
        let hole = at - 1 - sym::pick(2) * (n - 2);
        b[hole] = sym::u8();
        let whole = b[hole] == close;
        let blank = hole == at - 1 && n == 0;
        match jd::from_mut_slice::<IgnoredAny>(&mut b[..at]) {
            Ok(_) => { check!(whole || blank); cover!() }
            Err(_) => { check!(!whole); cover!() }
        }
    }
    /// derived types
    fn h_derived() {
        let v = sym::bytes::<5>();
        let n = 1 + sym::pick(5);
        let mut o = O::new();
        o.put(b"{\"x\":1,\"w\":[");
        o.put(&v[..n]);
        o.put(b"],\"y\":-2}");
        let m = o.len;
        let mut q = O::new();
        q.push(b'[');
        q.put(&v[..n]);
        q.push(b']');
        let ts = Types::new();
        let mut doc = crate::jref::Doc::new(q.as_slice(), &ts, Dec::Nope);
        let end = doc.skip(0);
        match jd::from_mut_slice::<Point>(&mut o.buf[..m]) {
            Ok(p) => { check!(end == Some(q.len) && p == Point { x: 1, y: -2 }); cover!() }
            Err(_) => { check!(end != Some(q.len) || doc.lax); cover!() }
        }
    }
}
