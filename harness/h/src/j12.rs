//! J12: JSON documents are consumed whole.
use crate::jref::{judge, Dec, Fate, DECS};
use crate::probe::{Types, T, T::*};
use crate::refdec::skip_ws;
use crate::sym;
use crate::types::*;
use crate::util::{far, windowed, Out};
use ser_write_json::de as jd;

const BIG: bool = cfg!(feature = "thorough");
fn taken() { cover!() }
fn trailing() { cover!() }
fn refused() { cover!() }
fn text(b: &mut [u8], ts: &Types, t: u8, dec: Dec) {
    match judge(b, ts, t, dec) { Fate::Read => taken(), Fate::Trailing => trailing(), Fate::Refused => refused() }
}
fn noise<const N: usize>(o: &mut Out<80>) { let n = sym::pick(N + 1); let b = sym::bytes::<N>(); o.put(&b[..n]) }
const LEAVES: [(T, &[u8]); 16] = [
    (Unit, b"null"), (UnitStruct, b"null"), (Bool, b"true"), (Bool, b"false"), (U8, b"12"), (I32, b"-7"), (U64, b"0"), (F64, b"null"), 
    (Char, b"\"c\""), (Str, b"\"t\\n\""), (Bytes, b"\"AA==\""), (Bytes, b"[1]"), (Any, b"null"), (Any, b"\"\""), (Ignored, b"\"\""), (Ignored, b"-1"),
];
/// documents of several tokens
const DOCS: [(usize, &[&[u8]]); 9] = [
    (0, &[b"[", b"1", b",", b"2", b"]"]),
    (1, &[b"{", b"\"a\"", b":", b"1", b",", b"\"bc\"", b":", b"\"s\"", b"}"]),
    (1, &[b"[", b"1", b",", b"\"\"", b"]"]),
    (2, &[b"{", b"\"Bc\"", b":", b"1", b"}"]),
    (2, &[b"{", b"\"D\"", b":", b"[", b"7", b"]", b"}"]),
    (3, &[b"[", b"{", b"\"k\"", b":", b"null", b"}", b"]"]),
    (4, &[b"{", b"\"7\"", b":", b"[", b"1", b",", b"2", b"]", b"}"]),
    (5, &[b"[", b"]"]),
    (6, &[b"{", b"\"u\"", b":", b"[", b"{", b"}", b",", b"0", b"]", b"}"]),
];
fn doc_type(ts: &mut Types, which: usize) -> u8 {
    let (u, s) = (ts.leaf(U8), ts.leaf(Str));
    match which {
        0 => ts.of(Seq, &[u]),
        1 => ts.of(Struct, &[u, s]),
        2 => ts.of(Enum, &[u]),
        3 => ts.leaf(Any),
        4 => { let x = ts.leaf(Bytes); ts.of(Map, &[u, x]) }
        5 => ts.of(TupleStruct, &[]),
        _ => ts.of(Struct, &[]),
    }
}
/// what the reading functions say of a text around the value
fn function(b: &mut [u8], at: usize, end: usize, which: usize) {
    let n = b.len();
    let (l, r) = (skip_ws(b, 0) >= at, skip_ws(b, end) == n);
    // a shorter value: digits in front or behind belong to the number
    let got = match which {
        0 => jd::from_mut_slice::<u8>(b).map(|_| ()),
        1 => jd::from_mut_slice_hex_bytes::<Bin>(b).map(|_| ()),
        2 => jd::from_mut_slice_base64_bytes::<Bin>(b).map(|_| ()),
        3 => jd::from_mut_slice_with_decoder::<jd::StringByteNopeDecoder, Rec>(b).map(|_| ()),
        _ => jd::from_mut_slice::<Option<bool>>(b).map(|_| ()),
    };
    if l && r { check!(got.is_ok()); cover!() }
    else if l && which != 0 { check!(got == Err(jd::Error::TrailingCharacters)); cover!() }
    else if got.is_ok() { check!(which == 0) }
}

harnesses! {
    /// anything in front of and behind a value of one token
    fn h_leaves() {
        let (k, v) = LEAVES[sym::pick(LEAVES.len())];
        let mut o = Out::<80>::new();
        noise::<2>(&mut o);
        o.put(v);
        noise::<{ if BIG { 4 } else { 3 } }>(&mut o);
        let mut ts = Types::new();
        let t = ts.leaf(k);
        let t = match sym::pick(3) { 0 => t, 1 => ts.of(Opt, &[t]), _ => ts.of(Newtype, &[t]) };
        let n = o.len;
        text(&mut o.buf[..n], &ts, t, if k == Bytes { Dec::Base64 } else { Dec::Nope })
    }
    /// anything between two tokens
    fn h_between() {
        let (which, d) = DOCS[sym::pick(DOCS.len())];
        let mut o = Out::<80>::new();
        let at = sym::pick(d.len() + 1);
        for i in 0..d.len() { if i == at { noise::<{ if BIG { 4 } else { 3 } }>(&mut o) } o.put(d[i]) }
        if at == d.len() { noise::<{ if BIG { 5 } else { 4 } }>(&mut o) }
        let mut ts = Types::new();
        let t = doc_type(&mut ts, which);
        let n = o.len;
        text(&mut o.buf[..n], &ts, t, Dec::Nope)
    }
    /// a blank or something else between every two tokens
    fn h_everywhere() {
        let (which, d) = DOCS[sym::pick(DOCS.len())];
        let mut o = Out::<80>::new();
        for i in 0..d.len() { o.push(sym::u8()); o.put(d[i]) }
        o.push(sym::u8());
        let mut ts = Types::new();
        let t = doc_type(&mut ts, which);
        let n = o.len;
        text(&mut o.buf[..n], &ts, t, Dec::Nope)
    }
    fn h_blank() {
        let mut b = sym::bytes::<8>();
        let n = sym::pick(9);
        for i in 0..n { sym::assume(b[i] <= b' ') }
        let mut ts = Types::new();
        let t = ts.leaf([Unit, U8, Str, Any, Bool, Ignored, I16, Bytes][sym::pick(8)]);
        text(&mut b[..n], &ts, t, DECS[sym::pick(3)])
    }
    /// long runs of blanks with something in them
    fn h_long() {
        let (which, d) = DOCS[sym::pick(DOCS.len())];
        let mut o = Out::<80>::new();
        let at = sym::pick(d.len() + 1);
        let n = 3 + sym::pick(if BIG { 35 } else { 28 });
        let w = windowed::<80>(b" \n \t \r", n, sym::pick(n), 1);
        for i in 0..d.len() { if i == at { o.put(w.as_slice()) } o.put(d[i]) }
        if at == d.len() { o.put(w.as_slice()) }
        let mut ts = Types::new();
        let t = doc_type(&mut ts, which);
        let n = o.len;
        text(&mut o.buf[..n], &ts, t, Dec::Nope)
    }
    fn h_far() {
        let (n, at) = far();
        let w = windowed::<300>(b" \n \t \r", n, at, 1);
        let blank = skip_ws(w.as_slice(), 0) == n;
        let mut o = Out::<300>::new();
        let k = sym::pick(3);
        if k == 0 { o.put(w.as_slice()) }
        o.put(b"[5");
        if k == 1 { o.put(w.as_slice()) }
        o.put(b",6]");
        if k == 2 { o.put(w.as_slice()) }
        let c = w.buf[at];
        // more of the number
        if k == 1 && at == 0 { sym::assume(!matches!(c, b'0'..=b'9')) }
        let l = o.len;
        match jd::from_mut_slice::<(u8, u8)>(&mut o.buf[..l]) {
            Ok(v) => { check!(v == (5, 6) && blank); cover!() }
            Err(e) => { check!(!blank); if k == 2 { check!(e == jd::Error::TrailingCharacters) } else { check!(c != b' ') } cover!() }
        }
    }
    fn h_functions() {
        let k = sym::pick(5);
        let v: &[u8] = [&b"5"[..], b"{\"data\":\"0a\"}", b"{\"data\":\"AA\",\"n\":1}", b"{\"name\":\"x\",\"id\":1,\"opt\":null}", b"true"][k];
        let mut o = Out::<80>::new();
        noise::<3>(&mut o);
        let at = o.len;
        o.put(v);
        let end = o.len;
        noise::<{ if BIG { 4 } else { 3 } }>(&mut o);
        let n = o.len;
        function(&mut o.buf[..n], at, end, k)
    }
}
