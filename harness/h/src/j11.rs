//! J11: borrowed JSON data stays valid and untouched.
use crate::jref::{judge, Dec, Fate, DECS};
use crate::probe::{Log, Probe, Types, T, T::*};
use crate::sym;
use crate::types::*;
use crate::util::{mutated, windowed, Out};
use serde::de::DeserializeSeed;
use ser_write_json::de as jd;

const BIG: bool = cfg!(feature = "thorough");
type O = Out<80>;
fn taken() { cover!() }
fn trailing() { cover!() }
fn refused() { cover!() }
fn text(b: &mut [u8], ts: &Types, t: u8, dec: Dec) {
    match judge(b, ts, t, dec) { Fate::Read => taken(), Fate::Trailing => trailing(), Fate::Refused => refused() }
}
/// what borrows, with the decoder that makes a difference to it
fn borrowed(ts: &mut Types) -> (u8, Dec) {
    let (k, d) = [(Str, Dec::Nope), (Bytes, Dec::Nope), (Bytes, Dec::Hex), (Bytes, Dec::Base64), (Ident, Dec::Nope), (Any, Dec::Nope)][sym::pick(6)];
    (ts.leaf(k), d)
}
fn content<const N: usize>(o: &mut O) { let b = sym::bytes::<N>(); o.put(&b[..sym::pick(N + 1)]) }
/// reading a value leaves what is behind it as it was
fn behind<'a>(b: &'a mut [u8], ts: &Types, t: u8, dec: Dec) {
    let n = b.len();
    let mut orig = [0u8; 80];
    orig[..n].copy_from_slice(b);
    let base = b.as_ptr();
    macro_rules! run { ($d:ident) => {{
        let mut d = jd::$d::from_mut_slice(b);
        let mut log = Log::new();
        if Probe::new(ts, t, &mut log).deserialize(&mut d).is_ok() {
            let left = d.remaining_len();
            match d.input_mut() {
                Ok(rest) => {
                    check!(rest.len() == left && rest.as_ptr() as usize + left == base as usize + n && sym::eq(rest, &orig[n - left..n]));
                    for x in rest.iter_mut() { *x = !*x }
                }
                Err(_) => check!(left == 0),
            }
            // nor does what is borrowed share anything with it
            check!(log.intact(base, n - left));
            taken()
        } else { refused() }
    }} }
    match dec { Dec::Nope => run!(DeserializerNopeByteStr), Dec::Hex => run!(DeserializerHexByteStr), Dec::Base64 => run!(DeserializerBase64ByteStr) }
}
const TEXTS: [&[u8]; 8] = [
    b"[\"a\\n\\u00e9\",\"\",\"\\\\b\"]", b"[\"0aFf\",[1,22,203],\"\"]", b"[\"AAEC\",\"+/8\",[255]]", b"[ \"x\\ty\" , [ 7 , 8 ] ,\"\\\"\" ]",
    b"{\"\\u0061\":\"b\\r\",\"c\":\"\"}", b"{\"k\":[1,2,3],\"l\":\"00\"}", b"{\"a\\/\":\"AA\",\"b\":\"////\"}", b"[\"\\ud83d\\ude00\",\"\xc3\xa9\\f\",[0]]",
];

harnesses! {
    fn h_one() {
        let mut o = O::new();
        o.push(b'"');
        content::<{ if BIG { 7 } else { 6 } }>(&mut o);
        o.push(b'"');
        let mut ts = Types::new();
        let (t, d) = borrowed(&mut ts);
        let n = o.len;
        text(&mut o.buf[..n], &ts, t, d)
    }
    /// two in a row
    fn h_siblings() {
        let mut o = O::new();
        o.put(b"[\"");
        content::<{ if BIG { 5 } else { 4 } }>(&mut o);
        o.put(b"\",\"");
        content::<3>(&mut o);
        o.put(b"\"]");
        let mut ts = Types::new();
        let (k, d) = borrowed(&mut ts);
        let t = ts.of(Seq, &[k]);
        let n = o.len;
        text(&mut o.buf[..n], &ts, t, d)
    }
    /// a key and its value
    fn h_entry() {
        let mut o = O::new();
        o.put(b"{\"");
        content::<3>(&mut o);
        o.put(b"\":\"");
        content::<3>(&mut o);
        o.put(b"\"}");
        let mut ts = Types::new();
        let key = ts.leaf(Str);
        let (k, d) = borrowed(&mut ts);
        let t = ts.of(Map, &[key, k]);
        let n = o.len;
        text(&mut o.buf[..n], &ts, t, d)
    }
    /// bytes as an array, decoded in place, between texts
    fn h_arrays() {
        let mut o = O::new();
        o.put(b"[\"p\\n\",[");
        content::<{ if BIG { 6 } else { 5 } }>(&mut o);
        o.put(b"],\"q\\t\"]");
        let mut ts = Types::new();
        let (s, x) = (ts.leaf(Str), ts.leaf(Bytes));
        let t = ts.of(Tuple, &[s, x, s]);
        let n = o.len;
        text(&mut o.buf[..n], &ts, t, DECS[sym::pick(3)])
    }
    fn h_mutated() {
        let which = sym::pick(TEXTS.len());
        let mut o = mutated(TEXTS[which], if BIG { 3 } else { 2 });
        let mut ts = Types::new();
        let (s, x) = (ts.leaf(Str), ts.leaf(Bytes));
        let t = match which {
            0 | 7 if sym::flip() => ts.of(Tuple, &[s, s, if which == 7 { x } else { s }]),
            0..=3 | 7 => { let k = if which == 0 { s } else { x }; ts.of(Seq, &[k]) }
            _ => { let k = if sym::flip() { x } else { s }; ts.of(Map, &[s, k]) }
        };
        let n = o.len;
        text(&mut o.buf[..n], &ts, t, DECS[sym::pick(3)])
    }
    /// values of every kind, read in front of other text
    fn h_behind() {
        let mut b = sym::bytes::<{ if BIG { 8 } else { 7 } }>();
        let n = sym::pick(b.len() + 1);
        for i in 1..n { sym::assume(!matches!(b[i], b'.' | b'e' | b'E')) }
        let mut ts = Types::new();
        let (mut t, d) = borrowed(&mut ts);
        match sym::pick(4) { 1 => t = ts.of(Seq, &[t]), 2 => { let k = ts.leaf(Str); t = ts.of(Map, &[k, t]) } 3 => { t = ts.leaf([U8, I16, Bool, Unit, Char, Ignored][sym::pick(6)]) } _ => {} }
        behind(&mut b[..n], &ts, t, d)
    }
    fn h_behind_text() {
        let mut o = mutated(TEXTS[sym::pick(TEXTS.len())], 1);
        content::<1>(&mut o);
        let mut ts = Types::new();
        let (s, x) = (ts.leaf(Str), ts.leaf(Bytes));
        let k = if sym::flip() { x } else { s };
        let t = if sym::flip() { ts.of(Map, &[s, k]) } else { ts.of(Seq, &[k]) };
        let n = o.len;
        behind(&mut o.buf[..n], &ts, t, DECS[sym::pick(3)])
    }
    /// long contents with two arbitrary bytes anywhere, beside another
    fn h_long() {
        let mut ts = Types::new();
        let (k, d) = borrowed(&mut ts);
        let n = 6 + sym::pick(if BIG { 35 } else { 28 });
        let fill: &[u8] = match d { Dec::Hex => b"0aF9", Dec::Base64 => b"Az9+/Qm0", Dec::Nope => b"ab\\ncdefghijkl" };
        let mut o = O::new();
        o.put(b"[\"");
        o.put(windowed::<80>(fill, n, sym::pick(n - 1), 2).as_slice());
        o.put(b"\" , \"");
        o.put(&fill[..4]);
        o.put(b"\"]");
        let t = ts.of(Seq, &[k]);
        let n = o.len;
        text(&mut o.buf[..n], &ts, t, d)
    }
    /// derived types that borrow
    fn h_derived() {
        let mut o = O::new();
        o.put(b"{\"name\":\"");
        let at = o.len;
        content::<4>(&mut o);
        let end = o.len;
        o.put(b"\",\"id\":3,\"opt\":true}");
        let mut want = O::new();
        let mut q = O::new();
        q.put(&o.buf[at..end + 1]);
        let ok = crate::refdec::json_str_content(q.as_slice(), 0, &mut want) == Some(q.len);
        let n = o.len;
        match jd::from_mut_slice::<Rec>(&mut o.buf[..n]) {
            Ok(r) => if ok { check!(sym::eq(r.name.as_bytes(), want.as_slice()) && r.id == 3 && r.opt == Some(true)); cover!() } else { check!(q.as_slice()[..q.len - 1].contains(&b'"')) },
            Err(_) => check!(!ok || !crate::util::utf8_valid(want.as_slice())),
        }
    }
}
