//! J07: JSON structure is accepted exactly when the grammar allows it.
use crate::jref::{judge, Dec, Fate};
use crate::probe::{Types, T, T::*};
use crate::big::{self, Nest, Wide, WideReader};
use serde::de::DeserializeSeed;
use crate::sym;
use crate::types::*;
use crate::util::{mutated, replaced, windowed, Out};
use ser_write_json::de as jd;

const BIG: bool = cfg!(feature = "thorough");
fn taken() { cover!() }
fn trailing() { cover!() }
fn refused() { cover!() }
fn text(b: &mut [u8], ts: &Types, t: u8) {
    match judge(b, ts, t, Dec::Nope) { Fate::Read => taken(), Fate::Trailing => trailing(), Fate::Refused => refused() }
}
const COUNT: usize = 12;
fn pick_type(ts: &mut Types, which: usize) -> u8 {
    let (u, s, b, z) = (ts.leaf(U8), ts.leaf(Str), ts.leaf(Bool), ts.leaf(Unit));
    match which {
        0 => ts.of(Seq, &[u]),
        1 => ts.of(Tuple, &[u, b]),
        2 => ts.of(TupleStruct, &[]),
        3 => ts.of(Map, &[s, u]),
        4 => { let o = ts.of(Opt, &[b]); ts.of(Struct, &[u, o]) }
        5 => ts.of(Enum, &[u]),
        6 => ts.of(Enum, &[u, z]),
        7 => { let q = ts.of(Seq, &[z]); ts.of(Seq, &[q]) }
        8 => { let i = ts.leaf(I8); let q = ts.of(Seq, &[u]); ts.of(Map, &[i, q]) }
        9 => { let q = ts.of(Tuple, &[u]); let n = ts.of(Newtype, &[q]); ts.of(Opt, &[n]) }
        10 => { let c = ts.leaf(Char); let e = ts.of(Enum, &[u]); ts.of(Map, &[c, e]) }
        _ => { let m = ts.of(Map, &[b, u]); ts.of(Tuple, &[m, s]) }
    }
}
/// types that nest in themselves
fn tree(ts: &mut Types, which: usize) -> u8 {
    let u = ts.leaf(U8);
    let t = match which {
        0 => ts.of(Seq, &[0]),
        1 => { let s = ts.leaf(Str); ts.of(Map, &[s, 0]) }
        2 => ts.of(Opt, &[0]),
        _ => ts.of(Enum, &[0, u]),
    };
    let k = &mut ts.a[t as usize].kid;
    if which == 1 { k[1] = t } else { k[0] = t }
    if which == 2 { let q = ts.of(Seq, &[t]); ts.a[t as usize].kid[0] = q }
    t
}
fn bytes<const N: usize>(which: usize) {
    let mut b = sym::bytes::<N>();
    let n = sym::pick(N + 1);
    let mut ts = Types::new();
    let t = pick_type(&mut ts, which);
    text(&mut b[..n], &ts, t)
}
const SAMPLES: [(usize, &[u8]); 16] = [
    (0, b"[1,23,0]"), (1, b"[7,true]"), (3, b"{\"k\":1,\"l\":2}"), (4, b"{\"a\":1,\"bc\":true}"), (4, b"{\"bc\":null,\"a\":1}"), (4, b"[1,false]"),
    (5, b"{\"Bc\":5}"), (5, b"\"A\""), (5, b"{\"D\":[5]}"), (6, b"{\"D\":{\"a\":1,\"bc\":null}}"), (6, b"{\"D\":[1,null]}"), (7, b"[[null],[]]"),
    (8, b"{\"-5\":[1],\"7\":[]}"), (9, b"[5]"), (10, b"{\"x\":\"A\",\"y\":{\"Bc\":1}}"), (11, b"[{\"true\":1},\"s\"]"),
];
/// three fields, one of whose names is written with an escape
const FIELD: [&[u8]; 3] = [b"\"a\"", b"\"bc\"", b"\"d\\\"e\""];
const ORDERS: [[usize; 3]; 6] = [[0, 1, 2], [0, 2, 1], [1, 0, 2], [1, 2, 0], [2, 0, 1], [2, 1, 0]];
fn gap(o: &mut Out<80>) { let n = sym::pick(2); for _ in 0..n { o.push([b' ', b'\n'][sym::pick(2)]) } }

harnesses! {
    fn h_bytes() { bytes::<{ if BIG { 7 } else { 6 } }>(sym::pick(COUNT)) }
    fn h_bytes_seq() { bytes::<{ if BIG { 9 } else { 8 } }>([0, 7][sym::pick(2)]) }
    fn h_bytes_map() { bytes::<{ if BIG { 9 } else { 8 } }>([3, 8][sym::pick(2)]) }
    fn h_bytes_tuple() { bytes::<{ if BIG { 9 } else { 8 } }>([1, 2, 9][sym::pick(3)]) }
    fn h_bytes_enum() { bytes::<{ if BIG { 8 } else { 7 } }>([5, 6][sym::pick(2)]) }
    fn h_nested() {
        let mut b = sym::bytes::<{ if BIG { 11 } else { 10 } }>();
        let n = sym::pick(b.len() + 1);
        let mut ts = Types::new();
        let t = tree(&mut ts, sym::pick(4));
        text(&mut b[..n], &ts, t)
    }
    fn h_mutated() {
        let (which, s) = SAMPLES[sym::pick(SAMPLES.len())];
        let mut o = mutated(s, if BIG { 3 } else { 2 });
        let mut ts = Types::new();
        let t = pick_type(&mut ts, which);
        let n = o.len;
        text(&mut o.buf[..n], &ts, t)
    }
    /// long values with two arbitrary bytes anywhere
    fn h_long() {
        let (which, open, fill, close): (usize, &[u8], &[u8], &[u8]) = [(0, &b"["[..], &b"1, 22,3,"[..], &b"0]"[..]), (3, b"{\"", b"a\":1,\"", b"\":0}"), (7, b"[", b"[],[null],", b"[]]"), (8, b"{", b"\"-1\":[2],", b"\"0\":[]}")][sym::pick(4)];
        let n = 6 + sym::pick(if BIG { 41 } else { 34 });
        let mut o = Out::<80>::new();
        o.put(open);
        o.put(windowed::<80>(fill, n, sym::pick(n - 1), 2).as_slice());
        o.put(close);
        let mut ts = Types::new();
        let t = pick_type(&mut ts, which);
        let n = o.len;
        text(&mut o.buf[..n], &ts, t)
    }
    /// two pieces at once
    fn h_mutated_twice() {
        let (which, s) = SAMPLES[sym::pick(SAMPLES.len())];
        let o = mutated(s, 1);
        let mut o = mutated(o.as_slice(), 1);
        let mut ts = Types::new();
        let t = pick_type(&mut ts, which);
        let n = o.len;
        text(&mut o.buf[..n], &ts, t)
    }
    fn h_truncated() {
        let (which, s) = SAMPLES[sym::pick(SAMPLES.len())];
        let mut o = Out::<80>::new();
        o.put(&s[..sym::pick(s.len())]);
        for _ in 0..3 { o.push(sym::u8()) }
        let mut ts = Types::new();
        let t = pick_type(&mut ts, which);
        let n = o.len;
        text(&mut o.buf[..n], &ts, t)
    }
    /// a struct of three fields from an object in any key order or an array
    fn h_orders() {
        let v = [sym::digit(0, 9), sym::digit(0, 9), sym::digit(0, 9)];
        let mut o = Out::<80>::new();
        let ord = ORDERS[sym::pick(6)];
        if sym::flip() {
            o.push(b'{');
            for i in 0..3 { if i > 0 { o.push(b',') } gap(&mut o); o.put(FIELD[ord[i]]); o.push(b':'); gap(&mut o); o.push(v[ord[i]]) }
            o.push(b'}')
        } else {
            o.push(b'[');
            for i in 0..3 { if i > 0 { o.push(b',') } o.push(v[i]) }
            o.push(b']')
        }
        let mut ts = Types::new();
        let u = ts.leaf(U8);
        let t = ts.of(Struct, &[u, u, u]);
        let n = o.len;
        check!(judge(&mut o.buf[..n], &ts, t, Dec::Nope) == Fate::Read);
        cover!()
    }
    /// fields missing, repeated or unknown
    fn h_fields() {
        let mut o = Out::<80>::new();
        o.push(b'{');
        let n = sym::pick(4);
        for i in 0..n {
            if i > 0 { o.push(b',') }
            o.put([&b"\"a\":"[..], b"\"bc\":", b"\"b\":", b"\"\\u0061\":"][sym::pick(4)]);
            o.push(sym::digit(0, 9));
        }
        o.push(b'}');
        let mut ts = Types::new();
        let u = ts.leaf(U8);
        let p = ts.of(Opt, &[u]);
        let t = ts.of(Struct, &[u, p]);
        let n = o.len;
        text(&mut o.buf[..n], &ts, t)
    }
    /// derived types through the public function
    fn h_derived() {
        let k = sym::pick(5);
        let s: &[u8] = [&b"{\"x\":1,\"y\":2}"[..], b"[1,2]", b"{\"Line\":[1,2]}", b"{\"Box\":{\"h\":2,\"w\":1}}", b"{\"a\":1,\"b\":2}"][k];
        let mut o = mutated(s, if BIG { 3 } else { 2 });
        let n = o.len;
        let mut copy = Out::<80>::new();
        copy.put(&o.buf[..n]);
        let ts = Types::new();
        let ok = match k {
            0 | 1 => jd::from_mut_slice::<Point>(&mut o.buf[..n]).is_ok(),
            2 | 3 => jd::from_mut_slice::<Shape>(&mut o.buf[..n]).is_ok(),
            _ => jd::from_mut_slice::<Strict>(&mut o.buf[..n]).is_ok(),
        };
        // what is accepted is a balanced value
        let mut doc = crate::jref::Doc::new(copy.as_slice(), &ts, Dec::Nope);
        if ok {
            check!(match doc.skip(0) { Some(e) => crate::refdec::skip_ws(copy.as_slice(), e) == n, None => false });
            cover!()
        }
    }
    /// hundreds of levels, one closing bracket replaced
    fn h_deep() {
        let v = Nest::any();
        let mut o = Out::<8192>::new();
        v.json(&mut o);
        let n = o.len;
        let at = n - 1 - [0, 1, 31, 127, 255][sym::pick(5)].min(v.depth - 1);
        let was = o.buf[at];
        o.buf[at] = sym::u8();
        let whole = o.buf[at] == was;
        let mut d = jd::DeserializerBase64ByteStr::from_mut_slice(&mut o.buf[..n]);
        match big::typed(&v).deserialize(&mut d) {
            Ok(x) => { if whole { check!(x == v.leaf && d.end().is_ok()) } else { check!(d.end().is_err()) } cover!() }
            Err(_) => { check!(!whole); cover!() }
        }
    }
    /// hundreds of elements, one byte replaced
    fn h_far() {
        let v = Wide::any(&[9, 10, 11, 99, 100, 101, 255, 256, 257, 300]);
        let mut o = Out::<8192>::new();
        v.json(&mut o);
        let n = o.len;
        let mut d = jd::DeserializerNopeByteStr::from_mut_slice(&mut o.buf[..n]);
        check!(WideReader(v, false).deserialize(&mut d).is_ok() && d.end().is_ok());
        cover!()
    }
}
