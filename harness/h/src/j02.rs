//! J02: JSON strings are escaped correctly and decode to the same text.
use crate::node::any_char;
use crate::refdec::{json_str_content, nib};
use crate::sym;
use crate::util::{far, windowed, One, Out, Text, utf8_valid};
use core::fmt::{self, Write};
use ser_write_json::{ser as js, de as jd};
use serde::{Serialize, Serializer};

const BIG: bool = cfg!(feature = "thorough");
const M: usize = 320;

fn plain(c: u8) -> bool { c >= 32 && c != b'"' && c != b'\\' }
fn control() { cover!() }
fn quote() { cover!() }
fn wide() { cover!() }
/// `t` is one string token for `s`: plain characters unchanged, the others escaped
fn token(t: &[u8], s: &[u8]) {
    let n = t.len();
    check!(n >= 2 && t[0] == b'"' && t[n - 1] == b'"');
    let mut j = 1;
    for &c in s {
        if plain(c) {
            check!(j < n - 1 && t[j] == c);
            if c >= 0x80 { wide() }
            j += 1;
        } else {
            check!(j + 1 < n - 1 && t[j] == b'\\');
            if c < 32 { control() } else { quote() }
            let e = t[j + 1];
            j += 2;
            let d = match e {
                b'"' | b'\\' | b'/' => e,
                b'b' => 8, b'f' => 12, b'n' => 10, b'r' => 13, b't' => 9,
                b'u' => {
                    check!(j + 4 <= n - 1 && t[j] == b'0' && t[j + 1] == b'0');
                    let (a, b) = (nib(t[j + 2]), nib(t[j + 3]));
                    check!(a.is_some() && b.is_some());
                    j += 4;
                    a.unwrap_or(0) << 4 | b.unwrap_or(0)
                }
                _ => { check!(false); 0 }
            };
            check!(d == c);
        }
    }
    check!(j == n - 1);
    sym::emit_bytes(t);
}
/// and the crate itself reads it back
fn back(t: &[u8], s: &[u8]) {
    let mut c = [0u8; M];
    let c = &mut c[..t.len()];
    c.copy_from_slice(t);
    match jd::from_mut_slice::<&str>(c) { Ok(r) => check!(sym::eq(r.as_bytes(), s)), Err(_) => check!(false) }
}
/// as a value and as an object key
fn check_as<T: Serialize>(v: T, s: &[u8]) {
    let mut o = Out::<M>::new();
    check!(js::to_writer(&mut o, &v).is_ok());
    token(o.as_slice(), s);
    back(o.as_slice(), s);
}
fn check_key<T: Serialize>(v: T, s: &[u8]) {
    let mut o = Out::<M>::new();
    check!(js::to_writer(&mut o, &One(v)).is_ok());
    let n = o.len;
    check!(n > 8 && o.buf[0] == b'{' && sym::eq(&o.buf[n - 6..n], b":null}"));
    token(&o.buf[1..n - 6], s);
}
/// text with characters written unchanged around and between any three bytes
fn spread(f: &dyn Fn(&str)) {
    let mut b = Out::<M>::new();
    for _ in 0..3 {
        match sym::pick(4) { 0 => b.put(b"abcde"), 1 => b.put("\u{20ac}".as_bytes()), 2 => b.push(b'x'), _ => {} }
        if sym::flip() { let c = sym::u8(); sym::assume(c < 0x80); b.push(c) }
    }
    f(unsafe { core::str::from_utf8_unchecked(b.as_slice()) })
}
/// a long text with three arbitrary bytes of UTF-8 anywhere
fn long(far_off: bool, f: &dyn Fn(&str)) {
    let (n, at) = if far_off { far() } else { let n = 6 + sym::pick(if BIG { 35 } else { 30 }); (n, sym::pick(n - 2)) };
    let o = windowed::<M>(if sym::flip() { b"abcdefg" } else { "a\u{e9}\u{20ac}x".as_bytes() }, n, at, 3);
    sym::assume(utf8_valid(o.as_slice()));
    f(unsafe { core::str::from_utf8_unchecked(o.as_slice()) })
}
/// a formatter that hands out the text in pieces
#[derive(Clone, Copy)]
struct Pieces<'a>(&'a str, usize, usize, bool);
impl<'a> fmt::Display for Pieces<'a> {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str(&self.0[..self.1])?;
        if self.3 { for c in self.0[self.1..self.2].chars() { f.write_char(c)? } } else { f.write_str(&self.0[self.1..self.2])? }
        f.write_str(&self.0[self.2..])
    }
}
struct Collect<T>(T);
impl<T: fmt::Display> Serialize for Collect<T> {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.collect_str(&self.0) }
}
fn pieces(key: bool) {
    let t = Text::<{ if BIG { 4 } else { 3 } }>::any();
    let s = t.as_str();
    let a = sym::pick(t.n + 1);
    let b = a + sym::pick(t.n + 1 - a);
    sym::assume(s.is_char_boundary(a) && s.is_char_boundary(b));
    let v = Collect(Pieces(s, a, b, sym::flip()));
    if key { check_key(v, s.as_bytes()) } else { check_as(v, s.as_bytes()) }
}

harnesses! {
    fn h_text() { let t = Text::<{ if BIG { 5 } else { 4 } }>::any(); check_as(t.as_str(), t.as_bytes()) }
    fn h_text_key() { let t = Text::<{ if BIG { 5 } else { 4 } }>::any(); check_key(t.as_str(), t.as_bytes()) }
    fn h_spread() { spread(&|s| check_as(s, s.as_bytes())) }
    fn h_spread_key() { spread(&|s| check_key(s, s.as_bytes())) }
    fn h_long() { long(false, &|s| check_as(s, s.as_bytes())) }
    fn h_long_key() { long(false, &|s| check_key(s, s.as_bytes())) }
    fn h_far() { long(true, &|s| check_as(s, s.as_bytes())) }
    fn h_far_key() { long(true, &|s| check_key(s, s.as_bytes())) }
    fn h_char() {
        let c = unsafe { char::from_u32_unchecked(any_char()) };
        let mut b = [0u8; 4];
        let s = c.encode_utf8(&mut b);
        check_as(c, s.as_bytes());
    }
    fn h_char_key() {
        let c = unsafe { char::from_u32_unchecked(any_char()) };
        let mut b = [0u8; 4];
        let s = c.encode_utf8(&mut b);
        check_key(c, s.as_bytes());
    }
    fn h_display() { pieces(false) }
    fn h_display_key() { pieces(true) }
    /// through the other byte encodings' serializers
    fn h_encodings() {
        let c = sym::bytes::<2>();
        sym::assume(c[0] < 0x80 && c[1] < 0x80);
        let s = unsafe { core::str::from_utf8_unchecked(&c) };
        let mut o = Out::<M>::new();
        match sym::pick(3) {
            0 => check!(js::to_writer_hex_bytes(&mut o, s).is_ok()),
            1 => check!(js::to_writer_base64_bytes(&mut o, s).is_ok()),
            _ => check!(js::to_writer_pass_bytes(&mut o, s).is_ok()),
        }
        token(o.as_slice(), &c);
    }
}
