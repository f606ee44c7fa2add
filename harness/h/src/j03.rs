//! J03: JSON string tokens decode exactly as RFC 8259 says.
use crate::refdec::*;
use crate::sym;
use crate::util::{far, windowed, Out, utf8_valid};
use ser_write_json::de as jd;
#[cfg(feature = "alloc")]
use alloc::string::String;

const BIG: bool = cfg!(feature = "thorough");
const M: usize = 280;

/// the one character of a text, if it is one
fn single(b: &[u8]) -> Option<u32> {
    let n = b.len();
    let c0 = *b.first()?;
    let want = if c0 < 0x80 { 1 } else if c0 < 0xE0 { 2 } else if c0 < 0xF0 { 3 } else { 4 };
    if n != want { return None }
    Some(match n {
        1 => c0 as u32,
        2 => (c0 as u32 & 31) << 6 | b[1] as u32 & 63,
        3 => (c0 as u32 & 15) << 12 | (b[1] as u32 & 63) << 6 | b[2] as u32 & 63,
        _ => (c0 as u32 & 7) << 18 | (b[1] as u32 & 63) << 12 | (b[2] as u32 & 63) << 6 | b[3] as u32 & 63,
    })
}
fn ok_str() { cover!() }
fn bad_str() { cover!() }
/// as borrowed text
fn compare(b: &[u8]) {
    let mut o = Out::<M>::new();
    let want = json_string_doc(b, &mut o);
    let mut c = [0u8; M];
    let c = &mut c[..b.len()];
    c.copy_from_slice(b);
    match jd::from_mut_slice::<&str>(c) {
        Ok(s) => { check!(want.is_some() && sym::eq(s.as_bytes(), o.as_slice())); ok_str(); sym::emit_bytes(s.as_bytes()) }
        Err(e) => { check!(want.is_none()); bad_str(); match e { jd::Error::UnexpectedEof => cover!(), jd::Error::InvalidUnicodeCodePoint => cover!(), _ => {} } }
    }
}
/// as owned text
fn compare_owned(b: &[u8]) {
    #[cfg(feature = "alloc")]
    {
        let mut o = Out::<M>::new();
        let want = json_string_doc(b, &mut o);
        let mut c = [0u8; M];
        let c = &mut c[..b.len()];
        c.copy_from_slice(b);
        match jd::from_mut_slice::<String>(c) {
            Ok(s) => check!(want.is_some() && sym::eq(s.as_bytes(), o.as_slice())),
            Err(_) => check!(want.is_none()),
        }
    }
}
fn compare_char(b: &[u8]) {
    let mut o = Out::<M>::new();
    let want = json_string_doc(b, &mut o).and_then(|_| single(o.as_slice()));
    let mut c = [0u8; M];
    let c = &mut c[..b.len()];
    c.copy_from_slice(b);
    match jd::from_mut_slice::<char>(c) {
        Ok(x) => { check!(want == Some(x as u32)); cover!() }
        Err(_) => check!(want.is_none()),
    }
}
/// quoted arbitrary content of every length
fn quoted(n: usize, f: &dyn Fn(&[u8])) {
    let mut b = [0u8; M];
    b[0] = b'"';
    sym::fill(&mut b[1..1 + n]);
    b[1 + n] = b'"';
    f(&b[..n + 2])
}
/// a content built from pieces: raw bytes, simple escapes, `\u` escapes with
/// arbitrary bytes where the digits belong
fn pieces(n: usize, f: &dyn Fn(&[u8])) {
    let mut b = Out::<M>::new();
    b.push(b'"');
    let mut one = false;
    for _ in 0..n {
        match sym::pick(if one { 2 } else { 3 }) {
            0 => b.push(sym::u8()),
            1 => { b.push(b'\\'); b.push(sym::u8()) }
            _ => {
                b.put(b"\\u");
                one = true;
                // one position is arbitrary, the others are digits
                let p = sym::pick(4);
                for k in 0..4 { let v = sym::u8(); if k != p { sym::assume(nib(v).is_some()) } b.push(v) }
            }
        }
    }
    b.push(b'"');
    f(b.as_slice())
}
/// a `\u` escape of any code unit, in either case, with text around it
fn unicode(f: &dyn Fn(&[u8])) {
    let mut b = Out::<M>::new();
    b.push(b'"');
    for _ in 0..sym::pick(3) { let c = sym::u8(); sym::assume(c >= 32 && c < 127 && c != b'"' && c != b'\\'); b.push(c) }
    b.put(b"\\u");
    for _ in 0..4 {
        let v = sym::u8();
        sym::assume(nib(v).is_some());
        b.push(v)
    }
    for _ in 0..sym::pick(3) { let c = sym::u8(); sym::assume(c >= 32 && c < 127 && c != b'"' && c != b'\\'); b.push(c) }
    b.push(b'"');
    f(b.as_slice())
}

harnesses! {
    /// anything at all
    fn h_any() {
        let b = sym::bytes::<7>();
        compare(&b[..sym::pick(if BIG { 8 } else { 7 })])
    }
    fn h_any_owned() {
        let b = sym::bytes::<7>();
        compare_owned(&b[..sym::pick(if BIG { 8 } else { 7 })])
    }
    fn h_any_char() {
        let b = sym::bytes::<7>();
        compare_char(&b[..sym::pick(if BIG { 8 } else { 7 })])
    }
    fn h_quoted() { quoted(sym::pick(if BIG { 8 } else { 7 }), &compare) }
    fn h_quoted_owned() { quoted(sym::pick(if BIG { 8 } else { 7 }), &compare_owned) }
    fn h_quoted_char() { quoted(sym::pick(if BIG { 8 } else { 7 }), &compare_char) }
    fn h_pieces() { pieces(if BIG { 3 } else { 2 }, &compare) }
    fn h_pieces_char() { pieces(2, &compare_char) }
    fn h_unicode() { unicode(&compare) }
    fn h_unicode_char() { unicode(&compare_char) }
    fn h_unicode_owned() { unicode(&compare_owned) }
    fn h_far() {
        let (n, at) = far();
        let mut b = Out::<M>::new();
        b.push(b'"');
        b.put(windowed::<M>([&b"abcdefgh"[..], b"ab\\ncdefghij\\u00e9klmnopqrs", "a\u{e9}\u{20ac}".as_bytes()][sym::pick(3)], n, at, 2).as_slice());
        b.push(b'"');
        compare(b.as_slice())
    }
    /// anywhere in a long text, with and without escapes before
    fn h_long() {
        let mut b = Out::<M>::new();
        b.push(b'"');
        let n = 6 + sym::pick(if BIG { 41 } else { 32 });
        b.put(windowed::<M>([&b"abcdefgh"[..], b"ab\\ncdefghij\\u00e9klmnopqrs", "a\u{e9}\u{20ac}".as_bytes()][sym::pick(3)], n, sym::pick(n - 2), 3).as_slice());
        b.push(b'"');
        compare(b.as_slice())
    }
    /// two escapes with text between and around: the gaps add up
    fn h_two_escapes() {
        let mut b = Out::<M>::new();
        b.push(b'"');
        let p = sym::bytes::<7>();
        for c in &p { sym::assume(*c >= 32 && *c < 127 && *c != b'"' && *c != b'\\') }
        let mut k = 0;
        for _ in 0..3 {
            for _ in 0..sym::pick(3) { if k < 5 { b.push(p[k]); k += 1 } }
            match sym::pick(4) { 0 => b.put(b"\\n"), 1 => b.put(b"\\u20AC"), 2 => b.put(b"\\\""), _ => {} }
        }
        b.push(b'"');
        compare(b.as_slice());
        compare_owned(b.as_slice())
    }
    /// two code units in a row: surrogate pairs in particular
    fn h_two_units() {
        let mut b = Out::<M>::new();
        b.push(b'"');
        for _ in 0..2 {
            b.put(match sym::pick(4) { 0 => b"\\uD8", 1 => b"\\udc", 2 => b"\\u00", _ => b"\\uFF" });
            b.push(b'3');
            let v = sym::u8();
            sym::assume(nib(v).is_some());
            b.push(v)
        }
        b.push(b'"');
        compare(b.as_slice())
    }
    /// cut anywhere
    fn h_truncated() {
        let mut b = Out::<M>::new();
        b.push(b'"');
        b.push(sym::u8());
        match sym::pick(3) { 0 => b.put(b"\\n"), 1 => b.put(b"\\u20AC"), _ => b.put(b"\\\\") }
        b.push(sym::u8());
        b.push(b'"');
        compare(&b.as_slice()[..sym::pick(b.len + 1)])
    }
}
