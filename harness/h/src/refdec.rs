//! Reference decoders, written from the formats' specifications, independent
//! of the crates under check.
use crate::util::{utf8_valid, Out};

pub fn ws(c: u8) -> bool { c == b' ' || c == b'\t' || c == b'\n' || c == b'\r' }
pub fn nib(c: u8) -> Option<u8> {
    match c { b'0'..=b'9' => Some(c - b'0'), b'a'..=b'f' => Some(c - b'a' + 10), b'A'..=b'F' => Some(c - b'A' + 10), _ => None }
}
pub fn skip_ws(b: &[u8], mut i: usize) -> usize {
    while i < b.len() && ws(b[i]) { i += 1 }
    i
}
/// UTF-8 encoding of a code point that is not a surrogate
pub fn put_char<const M: usize>(o: &mut Out<M>, c: u32) {
    if c < 0x80 { o.push(c as u8) }
    else if c < 0x800 { o.push(0xC0 | (c >> 6) as u8); o.push(0x80 | (c & 0x3F) as u8) }
    else if c < 0x10000 { o.push(0xE0 | (c >> 12) as u8); o.push(0x80 | (c >> 6 & 0x3F) as u8); o.push(0x80 | (c & 0x3F) as u8) }
    else { o.push(0xF0 | (c >> 18) as u8); o.push(0x80 | (c >> 12 & 0x3F) as u8); o.push(0x80 | (c >> 6 & 0x3F) as u8); o.push(0x80 | (c & 0x3F) as u8) }
}
/// What stands between quotes, starting behind the opening quote: the decoded
/// bytes go to `o`; returns the position behind the closing quote.  `\u`
/// escapes of surrogates are refused.  UTF-8 is not looked at.
pub fn json_str_content<const M: usize>(b: &[u8], mut i: usize, o: &mut Out<M>) -> Option<usize> {
    loop {
        let c = *b.get(i)?;
        i += 1;
        match c {
            b'"' => return Some(i),
            0..=31 => return None,
            b'\\' => {
                let e = *b.get(i)?;
                i += 1;
                match e {
                    b'"' | b'\\' | b'/' => o.push(e),
                    b'b' => o.push(8),
                    b'f' => o.push(12),
                    b'n' => o.push(10),
                    b'r' => o.push(13),
                    b't' => o.push(9),
                    b'u' => {
                        let mut v = 0u32;
                        for k in 0..4 { v = v << 4 | nib(*b.get(i + k)?)? as u32 }
                        i += 4;
                        if v >= 0xD800 && v < 0xE000 { return None }
                        put_char(o, v);
                    }
                    _ => return None,
                }
            }
            _ => o.push(c),
        }
    }
}
/// a whole document that is one string
pub fn json_string_doc<const M: usize>(b: &[u8], o: &mut Out<M>) -> Option<()> {
    let i = skip_ws(b, 0);
    if *b.get(i)? != b'"' { return None }
    let i = json_str_content(b, i + 1, o)?;
    if skip_ws(b, i) != b.len() || !utf8_valid(o.as_slice()) { return None }
    Some(())
}

/// MessagePack: what the first byte and the header behind it announce
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Head { Nil, Bool(bool), Int(i128), F32(u32), F64(u64), Str(usize), Bin(usize), Arr(usize), Map(usize), Ext(usize), Reserved }
pub fn be(b: &[u8], i: usize, n: usize) -> Option<u64> {
    if i > b.len() || n > b.len() - i { return None }
    let mut v = 0u64;
    for k in 0..n { v = v << 8 | b[i + k] as u64 }
    Some(v)
}
/// None: the input ends inside the header
pub fn mp_head(b: &[u8], i: usize) -> Option<(Head, usize)> {
    use Head::*;
    if i >= b.len() { return None }
    let c = b[i];
    let i = i + 1;
    let len = |n: usize| -> Option<(usize, usize)> { Some((be(b, i, n)? as usize, i + n)) };
    Some(match c {
        0x00..=0x7f => (Int(c as i128), i),
        0xe0..=0xff => (Int(c as i128 - 256), i),
        0x80..=0x8f => (Map((c & 15) as usize), i),
        0x90..=0x9f => (Arr((c & 15) as usize), i),
        0xa0..=0xbf => (Str((c & 31) as usize), i),
        0xc0 => (Nil, i),
        0xc1 => (Reserved, i),
        0xc2 => (Bool(false), i),
        0xc3 => (Bool(true), i),
        0xc4 => { let (l, j) = len(1)?; (Bin(l), j) }
        0xc5 => { let (l, j) = len(2)?; (Bin(l), j) }
        0xc6 => { let (l, j) = len(4)?; (Bin(l), j) }
        0xc7 => { let (l, j) = len(1)?; (Ext(l + 1), j) }
        0xc8 => { let (l, j) = len(2)?; (Ext(l + 1), j) }
        0xc9 => { let (l, j) = len(4)?; (Ext(l + 1), j) }
        0xca => (F32(be(b, i, 4)? as u32), i + 4),
        0xcb => (F64(be(b, i, 8)?), i + 8),
        0xcc => (Int(be(b, i, 1)? as i128), i + 1),
        0xcd => (Int(be(b, i, 2)? as i128), i + 2),
        0xce => (Int(be(b, i, 4)? as i128), i + 4),
        0xcf => (Int(be(b, i, 8)? as i128), i + 8),
        0xd0 => (Int(be(b, i, 1)? as i8 as i128), i + 1),
        0xd1 => (Int(be(b, i, 2)? as i16 as i128), i + 2),
        0xd2 => (Int(be(b, i, 4)? as i32 as i128), i + 4),
        0xd3 => (Int(be(b, i, 8)? as i64 as i128), i + 8),
        0xd4 => (Ext(2), i),
        0xd5 => (Ext(3), i),
        0xd6 => (Ext(5), i),
        0xd7 => (Ext(9), i),
        0xd8 => (Ext(17), i),
        0xd9 => { let (l, j) = len(1)?; (Str(l), j) }
        0xda => { let (l, j) = len(2)?; (Str(l), j) }
        0xdb => { let (l, j) = len(4)?; (Str(l), j) }
        0xdc => { let (l, j) = len(2)?; (Arr(l), j) }
        0xdd => { let (l, j) = len(4)?; (Arr(l), j) }
        0xde => { let (l, j) = len(2)?; (Map(l), j) }
        0xdf => { let (l, j) = len(4)?; (Map(l), j) }
    })
}
/// the position behind the value at `i`; None when it is not all there or
/// holds the reserved marker
pub fn mp_skip(b: &[u8], i: usize) -> Option<usize> {
    // values still to come; every one takes a byte at least
    let (mut i, mut todo) = (i, 1usize);
    while todo > 0 {
        let (h, j) = mp_head(b, i)?;
        i = j;
        todo -= 1;
        match h {
            Head::Reserved => return None,
            Head::Str(n) | Head::Bin(n) | Head::Ext(n) => { if n > b.len() - i { return None } i += n }
            Head::Arr(n) => todo += n,
            Head::Map(n) => todo += 2 * n,
            _ => {}
        }
        if todo > b.len() - i { return None }
    }
    Some(i)
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Bad { Eof, Reserved, Ext, Utf8 }
/// what a reader without a type hint is to record
pub fn mp_any(b: &[u8], i: usize, l: &mut crate::probe::Log) -> Result<usize, Bad> {
    let (h, j) = match mp_head(b, i) { Some(x) => x, None => return Err(if i < b.len() && matches!(b[i], 0xc7..=0xc9) { Bad::Ext } else { Bad::Eof }) };
    let take = |n: usize| if n > b.len() - j { Err(Bad::Eof) } else { Ok(&b[j..j + n]) };
    let mut j2 = j;
    match h {
        Head::Reserved => return Err(Bad::Reserved),
        Head::Ext(_) => return Err(Bad::Ext),
        Head::Nil => l.o.push(b'0'),
        Head::Bool(v) => { l.o.push(b'b'); l.o.push(v as u8) }
        Head::Int(v) => l.int(v),
        Head::F32(v) => { l.o.push(b'g'); l.o.put(&v.to_be_bytes()) }
        Head::F64(v) => { l.o.push(b'd'); l.o.put(&v.to_be_bytes()) }
        Head::Str(n) => { let s = take(n)?; if !utf8_valid(s) { return Err(Bad::Utf8) } l.bytes(b'"', s); j2 = j + n }
        Head::Bin(n) => { let s = take(n)?; l.bytes(b'x', s); j2 = j + n }
        Head::Arr(n) => {
            l.o.push(b'[');
            let mut k = 0;
            while k < n { j2 = mp_any(b, j2, l)?; k += 1 }
            l.o.push(b']')
        }
        Head::Map(n) => {
            l.o.push(b'<');
            let mut k = 0;
            while k < n { j2 = mp_any(b, j2, l)?; j2 = mp_any(b, j2, l)?; k += 1 }
            l.o.push(b'>')
        }
    }
    Ok(j2)
}
/// the least number of bytes any MessagePack integer format needs
pub fn mp_int_size(v: i128) -> usize {
    if v >= -32 && v < 128 { 1 }
    else if v >= -128 && v < 256 { 2 }
    else if v >= -32768 && v < 65536 { 3 }
    else if v >= -(1 << 31) && v < 1 << 32 { 5 }
    else { 9 }
}
